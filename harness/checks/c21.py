import numpy as np
from vlib import run_check, guarded, tlc
from bfit.greedy import remove_redundancies

UNIT = 2.0 ** -10


def decode(ck, what, replay, cin, ein, cout, eout):
    """Positions and carried subsets of the kept functions (coefficients are distinct powers of two)."""
    n = len(cin)
    if np.shape(cout) != np.shape(eout) or np.ndim(cout) != 1:
        ck.fail(what + f": shapes {np.shape(cout)} and {np.shape(eout)}", replay)
        return None
    carries, kept, last = [], [], 0
    for m, c in enumerate(cout):
        v = int(round(float(c)))
        S, rest = [], v
        for i in range(n):          # a subset of signed powers of two is determined by its sum
            if rest >> i & 1:
                S.append(i + 1)
                rest -= int(cin[i])
        if v != c or rest:
            ck.fail(what + f": coefficient {c} is not a sum of input coefficients", replay)
            return None
        carries.append(S)
        pos = [i for i in S if ein[i - 1] == eout[m]]
        if not pos:
            ck.fail(what + f": exponent {eout[m]} does not belong to one of the functions {S} it carries", replay)
            return None
        kept.append(pos[0])
    return kept, carries


def body(ck):
    rng = np.random.default_rng(ck.seed + 21)
    r = ck.model(tlc("Merge", invariants=["Apart", "Covers", "Ordered", "FirstKept", "Emit"],
                     constants=dict(Mode='"gen"', MaxLen=ck.n(4, 5), MaxE=ck.n(5, 6))))
    cases = [(x["e"], x["eps"]) for x in r.records]
    for _ in range(ck.n(1500, 10000)):
        n = int(rng.integers(1, 13))
        cases.append(([int(v) for v in rng.integers(1, int(rng.integers(2, 60)), n)], int(rng.integers(1, 8)) if rng.random() < .9 else 0))
    ck.rule = ("all small exponent lists and tolerances (exactly representable, so ties at the tolerance are decided) and random longer ones; "
               "the real outcome, with coefficients that identify which were merged, must be a legal outcome of the specification")
    outs, info = [], []
    for k, (e, eps) in enumerate(cases):
        n = len(e)
        off = 0. if k % 3 else 64.
        ein, cin = np.array(e, float) * UNIT + off, 2. ** np.arange(n) * (1. if k % 2 else rng.choice([-1., 1.], n))
        replay = {"exponents": ein.tolist(), "coeffs": cin.tolist(), "eps": eps * UNIT}
        what = f"exponents {e} (units of 2^-10{' above 64' if off else ''}) tolerance {eps}"
        c0, e0 = cin.copy(), ein.copy()
        ok, res = guarded(ck, what, replay, remove_redundancies, cin, ein, eps * UNIT)
        if not ok:
            continue
        ck.case((tuple(e), eps), sample=replay)
        if not (np.array_equal(cin, c0) and np.array_equal(ein, e0)):
            ck.fail(what + ": modified its arguments", replay)
        if abs(np.sum(res[0]) - np.sum(cin)) > 1e-9 * np.sum(np.abs(cin)):
            ck.fail(what + f": total {np.sum(res[0])} instead of {np.sum(cin)}", replay)
            continue
        d = decode(ck, what, replay, cin, ein, res[0], res[1])
        if d:
            # equal exponents: the position is ambiguous only between functions carried together; the first is meant
            outs.append({"id": len(info), "e": list(e), "eps": eps, "kept": d[0], "carries": d[1]})
            info.append((what, replay, res))
    r = ck.model(tlc("Merge", invariants=["Apart", "Covers", "Emit"], constants=dict(Mode='"file"', MaxLen=1, MaxE=1), inputs={"out.json": outs}))
    for x in r.records:
        ck.traces += 1
        if not x["ok"]:
            what, replay, res = info[x["id"]]
            ck.fail(what + f": merged to coefficients {res[0]}, exponents {res[1]}, which is not a legal outcome", replay)
    # coefficients that vanish, repeat or cancel: the sums must still be explained by the specification
    outs, info = [], []
    for k in range(ck.n(1500, 8000)):
        n = int(rng.integers(1, 9))
        e, eps = rng.integers(1, int(rng.integers(2, 14)), n), int(rng.integers(0, 6))
        c = rng.integers(-2, 3, n)
        if k % 3 == 0:
            c[int(rng.integers(n))] = -int(np.sum(c)) + c[0]
        unit = [UNIT, 1., 2.0 ** 40, 2.0 ** -60][int(rng.integers(4))]
        ein, cin = e * unit, c * [1., 2. ** -40, 2. ** 30][k % 3]
        replay = {"exponents": ein.tolist(), "coeffs": cin.tolist(), "eps": eps * unit}
        what = f"exponents {e.tolist()} (units of {unit}) coefficients {c.tolist()} tolerance {eps}"
        ok, res = guarded(ck, what, replay, remove_redundancies, cin, ein, eps * unit)
        if not ok:
            continue
        ck.case(("sums", tuple(e.tolist()), tuple(c.tolist()), eps))
        co, eo = np.asarray(res[0]) / [1., 2. ** -40, 2. ** 30][k % 3], np.asarray(res[1]) / unit
        if not (np.array_equal(co, np.round(co)) and np.array_equal(eo, np.round(eo)) and np.all(np.abs(eo) < 1e6) and np.all(np.abs(co) < 1e6)):
            ck.fail(what + f": merged to coefficients {res[0]}, exponents {res[1]}, not made of the given ones", replay)
            continue
        outs.append({"id": len(info), "e": e.tolist(), "eps": eps, "c": c.tolist(), "eout": [int(v) for v in eo], "cout": [int(v) for v in co]})
        info.append((what, replay, res))
    r = ck.model(tlc("Merge", invariants=["Apart", "Covers", "Emit"], constants=dict(Mode='"sums"', MaxLen=1, MaxE=1), inputs={"out.json": outs}))
    for x in r.records:
        ck.traces += 1
        if not x["ok"]:
            what, replay, res = info[x["id"]]
            ck.fail(what + f": merged to coefficients {res[0]}, exponents {res[1]}, which is not a legal outcome", replay)
    # pairs just inside and just outside the tolerance, in both orders
    for k in range(ck.n(900, 6000)):
        eps = [1e-3, .5, 2.5e-6, 40.][k % 4]
        rel = [.9995, .99, .5, 1.0005, 1.01, 1.9][int(rng.integers(6))]
        a = float(rng.uniform(0., 3.)) * eps * 10
        e = np.array([a, a + rel * eps] if rng.random() < .5 else [a + rel * eps, a])
        far = np.array([a + 50. * eps] if rng.random() < .5 else [])
        e, c = np.concatenate((e, far)), rng.uniform(.5, 3., 2 + len(far))
        replay = {"exponents": e.tolist(), "coeffs": c.tolist(), "eps": eps}
        what = f"exponents {e.tolist()} at {rel} of the tolerance {eps}"
        ok, res = guarded(ck, what, replay, remove_redundancies, c, e, eps)
        ck.case(("pair", k % 4, rel, bool(e[0] < e[1]), len(far)))
        if not ok:
            continue
        want = (np.concatenate(([c[0] + c[1]], c[2:])), np.concatenate((e[:1], e[2:]))) if rel < 1 else (c, e)
        if np.shape(res[1]) != want[1].shape or not np.array_equal(res[1], want[1]) or not np.allclose(res[0], want[0], rtol=1e-13, atol=0):
            ck.fail(what + f": coefficients {c} became {res[0]}, {res[1]}", replay)
    # default tolerance and real-valued exponents: sum kept, pairwise apart
    for _ in range(ck.n(800, 6000)):
        n = int(rng.integers(1, 25))
        e = rng.uniform(0., .01 if rng.random() < .6 else 1., n)
        c = rng.uniform(.1, 5., n) if rng.random() < .5 else rng.choice([-1., 0., 1.], n) * rng.uniform(.1, 5., n)
        replay = {"exponents": e.tolist(), "coeffs": c.tolist()}
        ok, (nc, ne) = guarded(ck, "default tolerance", replay, remove_redundancies, c, e)
        ck.case(("real", n))
        if not ok:
            continue
        if abs(nc.sum() - c.sum()) > 1e-9 * np.abs(c).sum():
            ck.fail("default tolerance: the sum of the coefficients changed", replay)
        d = np.abs(ne[:, None] - ne[None, :]) + 10. * np.eye(len(ne))
        if len(ne) and np.min(d) < 1e-3 * (1 - 1e-9):
            ck.fail("default tolerance: kept exponents closer than the tolerance", replay)


if __name__ == "__main__":
    run_check("C21", "model_checking", body)
