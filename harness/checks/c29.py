import numpy as np
from vlib import run_check
from expr import close
import atoms as A


def body(ck):
    rng = np.random.default_rng(ck.seed + 29)
    st = A.spec(ck)
    ck.rule = ("core and valence densities of every shipped atom and ion and of rendered files (any order of orbital energies) are compared with "
               "the emitted expressions; they are non-negative and add up to the total density")
    last = 0
    for what, replay, pts, ok, got in A.atoms(ck, rng, ck.n(250, 2500)):
        e = got["orbitals_energy"] if ok == "ok" else [0]
        last += max(e) != e[-1]
        ck.case(what, sample=what)
        if ok != "ok":
            ck.fail(f"{what}: {got}", replay)
            continue
        ck.traces += 1
        w = A.wanted(st, got, pts)
        for m in ("core", "valence"):
            if not close(got["dens_" + m], w["dens_" + m], 1e-11, w["s_dens"]):
                k = int(np.argmax(np.abs(got["dens_" + m] - w["dens_" + m]) / w["s_dens"]))
                ck.fail(f"{what}: {m} density {got['dens_' + m][k]} at r={pts[k]}, specified {w['dens_' + m][k]}", replay)
            if np.any(got["dens_" + m] < 0):
                ck.fail(f"{what}: negative {m} density", replay)
        if not close(got["dens_core"] + got["dens_valence"], got["dens_total"], 1e-12, w["s_dens"]):
            ck.fail(f"{what}: core and valence densities do not add up to the total", replay)
    ck.extra["atoms_whose_last_orbital_is_not_the_highest"] = int(last)


if __name__ == "__main__":
    run_check("C29", "model_checking", body)
