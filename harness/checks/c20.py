import numpy as np
from vlib import run_check, guarded, tlc
from expr import ev, close, LD
from bfit.greedy import get_next_choices, get_two_next_choices, pick_two_lose_one

FN = {"pick-one": get_next_choices, "pick-two": get_two_next_choices, "pick-two-lose-one": pick_two_lose_one}


def body(ck):
    rng = np.random.default_rng(ck.seed + 20)
    r = ck.model(tlc("CandCases", invariants=["Counts", "Sizes", "OldKept", "NoRepeat", "Emit"], constants=dict(MaxN=ck.n(5, 7), More=ck.n("{8, 11, 16}", "{9, 12, 16, 20, 26}"),
                                          MoreOf='{"pick-one", "pick-two", "pick-two-lose-one"}')))
    more = ck.model(tlc("CandCases", invariants=["Counts", "Sizes", "OldKept", "NoRepeat", "Emit"], constants=dict(MaxN=1, More="{23, 30, 42}", MoreOf='{"pick-one", "pick-two"}')))
    ck.rule = ("for every number of functions within bounds and every strategy TLC emits the symbolic list of guesses (counts, sizes and kept "
               "functions are invariants); compared entry by entry with the real lists for random (also unsorted) parameters")
    for rec in r.records + more.records:
        n, fn = rec["n"], FN[rec["strategy"]]
        for rep in range(ck.n(40, 160) if n < 8 else 3):
            wide = 6 if rep % 3 else 40             # exponents of very different magnitudes
            a = np.exp(rng.uniform(-4 if rep % 3 else -40, wide, n))
            c = np.exp(rng.uniform(-3, 4, n))
            if rep % 2 == 0:
                a = np.sort(a)
            if rep % 4 == 1:
                c[rng.random(n) < .3] *= [0., -1., 1e-20, 1e15][int(rng.integers(4))]
            if rep % 5 == 2:                        # functions that are the same, or share an exponent
                k = rng.integers(0, n, n) if rep % 2 else np.sort(rng.integers(0, n, n))
                a, c = a[k], c[k] if rep % 3 else c
            if rep % 5 == 3:
                a, c = a.astype(LD), c.astype(LD)
            factor = float(np.exp(rng.uniform(-1., 5.)))
            fill = None if rep % 4 == 0 else float(np.exp(rng.uniform(-2, 6)))
            if rep % 7 == 6:
                factor, fill = [(1., 0.), (.25, -3.), (1e12, 1e12), (2., float(c[0]))][int(rng.integers(4))]
            replay = {"strategy": rec["strategy"], "coeffs": c.astype(float).tolist(), "exps": a.astype(float).tolist(), "factor": factor, "fill": fill}
            what = f"{rec['strategy']} n={n}"
            args = (factor, c, a) + (() if fill is None else (fill,))
            c0, a0 = c.copy(), a.copy()
            ok, got = guarded(ck, what, replay, fn, *args)
            ck.case((rec["strategy"], n, rep), sample=replay)
            if not ok:
                continue
            if not (np.array_equal(c, c0) and np.array_equal(a, a0)):
                ck.fail(what + ": modified its arguments", replay)
            env = {"factor": LD(factor), "fill": LD(100. if fill is None else fill)}
            for i in range(n):
                env[f"a{i + 1}"], env[f"c{i + 1}"] = LD(a[i]), LD(c[i])
            if len(got) != len(rec["list"]):
                ck.fail(what + f": {len(got)} guesses, specified {len(rec['list'])}", replay)
                continue
            for k, (g, s) in enumerate(zip(got, rec["list"])):
                want = np.array([ev(f["c"], env) for f in s] + [ev(f["a"], env) for f in s])
                if np.shape(g) != want.shape or not close(np.asarray(g), want, 1e-12):
                    ck.fail(what + f": guess {k} is {np.asarray(g, float).tolist()}, specified {want.astype(float).tolist()}", dict(replay, guess=k))
                    break


if __name__ == "__main__":
    run_check("C20", "model_checking", body)
