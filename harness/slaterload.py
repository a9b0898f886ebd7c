"""Worker: runs in its own process with a scratch copy of the package first on the path.

stdin: pickle of a list of operations; stdout (file argv[1]): pickle of their results.
"""
import os
import pickle
import sys
import warnings

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import bfit  # noqa: E402
from bfit.density import SlaterAtoms  # noqa: E402

ATTRS = ["energy", "kinetic_energy", "potential_energy", "configuration", "orbitals", "orbitals_occupation", "orbitals_basis",
         "basis_numbers", "orbitals_exp", "orbitals_coeff", "orbitals_energy", "orbitals_cusp"]


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.ravel().tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def spoil(v):
    """Overwrite what a load returned: a later load must not see it."""
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 7
    elif isinstance(v, list) and v and isinstance(v[0], str):
        v[0] = "9Z"


def atom(op):
    return SlaterAtoms(op["el"], anion=op["kind"] == "anion", cation=op["kind"] == "cation")


def ugbs(op):
    path = os.path.join(os.path.dirname(bfit.__file__), "data", "ygbs")
    if os.path.islink(path):
        os.remove(path)         # the link in the scratch copy, not the table it points to
    with open(path, "w", encoding="utf8") as h:
        h.write(op["table"])
    # a process of its own per table: whatever the module keeps of a table must not matter
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            from bfit.parse_ugbs import get_ugbs_exponents
            out = ("ok", get_ugbs_exponents(op["el"]))
        except Exception as e:      # pylint: disable=broad-except
            out = ("raised", f"{type(e).__name__}: {e}")
        os.write(w, pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        st, out = pickle.loads(h.read())
    os.waitpid(pid, 0)
    if st != "ok":
        raise RuntimeError(out)
    return out


def do(op):
    if op["op"] == "ugbs":
        return ugbs(op)
    a = atom(op)
    if op["op"] == "load":
        out = {k: plain(getattr(a, k)) for k in ATTRS}
        out["shapes"] = {k: np.shape(getattr(a, k)) for k in ("orbitals_occupation", "orbitals_energy", "orbitals_cusp")}
        if op.get("spoil"):
            for k in ATTRS:
                spoil(getattr(a, k))
        return out
    if op["op"] == "density":
        p = op["points"]
        if op.get("form") == "strided":
            p = np.stack((p, p + 1.), axis=1)[:, 0]
        elif op.get("form") == "fortran":
            p = np.asfortranarray(np.stack((p, p + 1.)))[0]
        elif op.get("form") == "readonly":
            p = np.array(p)
            p.flags.writeable = False
        elif op.get("form") == "reversed":
            p = np.array(p[::-1])[::-1]
        if len(p) > 3 and op.get("again", True):       # other points between the same ends first: must not matter
            q = np.array(p, float)
            q[1:-1] = .5 * q[1:-1] + .1
            for m in ("total", "core", "valence"):
                a.atomic_density(q, m)
            a.phi_matrix(q), a.phi_matrix(q, deriv=True), a.derivative_density(q), a.positive_definite_kinetic_energy(q)
        out = {k: plain(getattr(a, k)) for k in ATTRS}
        for m in ("total", "core", "valence"):
            out["dens_" + m] = np.array(a.atomic_density(p, m))
        out["default"] = np.array(a.atomic_density(p))
        out["phi"], out["dphi"] = np.array(a.phi_matrix(p)), np.array(a.phi_matrix(p, deriv=True))
        out["dd"] = np.array(a.derivative_density(p))
        out["ked"] = np.array(a.positive_definite_kinetic_energy(p))
        out["radial"] = {x: np.array(a.radial_slater_orbital(a.orbitals_exp[x], a.basis_numbers[x], p)) for x in a.orbitals_exp}
        out["dradial"] = {x: np.array(a.derivative_radial_slater_type_orbital(a.orbitals_exp[x], a.basis_numbers[x], p)) for x in a.orbitals_exp}
        return out
    raise ValueError(op["op"])


if __name__ == "__main__":
    ops = pickle.load(sys.stdin.buffer)
    res = []
    for o in ops:
        try:
            res.append(("ok", do(o)))
        except Exception as e:      # pylint: disable=broad-except
            res.append(("raised", f"{type(e).__name__}: {e}"))
    with open(sys.argv[1], "wb") as h:
        pickle.dump({"bfit": bfit.__file__, "results": res}, h)
