import contextlib
import io
import numpy as np
from vlib import run_check, tlc, TooMany
import greedyrun as G
from fpiloop import same

COUNTS = [(1, 0), (2, 1), (1, 2), (3, 0), (0, 2)]


class Interrupt(Exception):
    pass


def flat(res):
    out = []
    for k in ("coeffs", "exps", "num_s", "num_p", "fun", "success", "performance"):
        out.append(np.asarray(res[k], dtype=float))
    out += [np.asarray(x, dtype=float) for x in res["parameters_iteration"]]
    return out, str(res["exit_information"])


def equal(a, b):
    return a[1] == b[1] and len(a[0]) == len(b[0]) and all(same(x, y) for x, y in zip(a[0], b[0]))


class Extra:
    """Setting B asks the caller for more guesses (there are none); no other run may."""
    asked, now = 0, None

    def of(self, k):
        self.now = k

        def more(params):
            if self.now != k:
                self.asked += 1
            return []
        return more if k == "B" else None


class ScriptedWorld(Extra):
    """One object, every run following the script of its setting."""

    def __init__(self, rng, strategy):
        self.strategy, self.seed = strategy, int(rng.integers(1 << 30))
        scripts = [s for s in G.make_scripts(rng, 40) if s["strategy"] == strategy]
        at = int(rng.integers(min(3, len(scripts))))
        scripts[at:at + 1] = [{"id": 0, "strategy": strategy, "max": 6, "thr": 0, "start": 5, "steps": [
            {"lc": [3, 1, 2], "rc": 5 if t == 0 else 9, "red": False, "small": False} for t in range(12)], "observed": False, "steplimit": 60}]
        self.settings = {k: (scripts[i % len(scripts)], float(rng.choice([1.5, 3.])), float(rng.choice([0., 1., 2.])))
                         for i, k in enumerate("ABC")}

    def fresh(self):
        return G.Scripted(self.strategy, self.settings["A"][0], 1., np.random.default_rng(self.seed), reactive=True)

    def run(self, obj, k):
        sc, factor, thr = self.settings[k]
        obj.script, obj.rng = sc, np.random.default_rng(self.seed)
        np.random.seed(self.seed % 1000)
        return obj.run(factor, thr, sc["max"], self.of(k))


class RealWorld(Extra):
    def __init__(self, rng, kind, strategy):
        self.kind, self.strategy, self.seed = kind, strategy, int(rng.integers(1 << 30))
        st = [(1.5, 1e-8, 4), (2., 1e-2, 3), (4., 0., 5), (2., 1e-8, 1)]
        st = [st[i] for i in rng.permutation(4)[:3]]
        self.settings = dict(zip("ABC", st))

    def fresh(self):
        obj, _ = G.real_objects(np.random.default_rng(self.seed), self.kind, self.strategy)
        return obj

    def run(self, obj, k):
        factor, thr, mx = self.settings[k]
        if self.strategy == "pick-two-lose-one":
            mx = min(mx, 2)
        np.random.seed(self.seed % 1000)
        return obj.run(factor, thr, mx, self.of(k))


def perform(world, obj, op, rng, kept):
    """Returns the result of a completed run, None otherwise."""
    if op.startswith("run"):
        return world.run(obj, op[3:])
    if op.startswith("crash"):
        at, n = int(rng.integers(0, 40)), [0]
        name = "change_numb_s_and_numb_p" if rng.random() < .5 else "evaluate"
        orig = getattr(obj.model, name)

        def interrupted(*a, **k):
            n[0] += 1
            if n[0] > at:
                raise Interrupt()
            return orig(*a, **k)
        setattr(obj.model, name, interrupted)
        try:
            world.run(obj, op[5:])
        except Interrupt:
            pass
        finally:
            delattr(obj.model, name)
    elif op == "reject":
        for bad in (2, "x", None, 0., -1.):
            try:
                obj.run(bad, 1e-8, 3)
            except (TypeError, ValueError):
                pass
    elif op == "scribble":
        for _, res, _ in kept:
            for x in [res["coeffs"], res["exps"], res["performance"]] + list(res["parameters_iteration"]):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = -12345.
        kept.clear()
    elif op == "resize":
        obj.model.change_numb_s_and_numb_p(*COUNTS[int(rng.integers(len(COUNTS)))])
    return None


def body(ck):
    rng = np.random.default_rng(ck.seed + 25)
    const = lambda n, f: dict(Settings='{"A", "B", "C"}', MaxLen=n, MaxFn=f)
    ck.model(tlc("GreedyRuns", spec="Spec", invariants=["Independent"], properties=["Kept"], constants=const(3, 2), workers=4))
    r = ck.model(tlc("GreedyRuns", spec="Spec", view="HView", invariants=["Independent", "Emit"], constants=const(3, 1)))
    hist = {tuple(x["h"]) for x in r.records}
    length, num = ck.n((6, 60), (9, 400))
    r = ck.model(tlc("GreedyRuns", spec="Spec", invariants=["Independent", "Emit"], constants=const(length, 2), simulate=num * 4,
                     depth=length + 1, seed=ck.seed))
    long = sorted({tuple(x["h"]) for x in r.records})[:num]
    hist = sorted(hist)
    ck.rule = ("every history of complete, interrupted and rejected runs and resizings up to length 3, and random longer ones, on one "
               "scripted or real object: each run must return what it returns on a fresh object and earlier results must stay as they were")
    plan = []
    for i, h in enumerate(hist + long):
        plan.append((h, "scripted", G.STRATEGIES[i % 3]))
    nreal = ck.n(40, 500)
    own = [h for h in hist if h[0].startswith('run') and h[1] == 'scribble']
    for i in range(nreal):
        h = long[i % len(long)] if i % 4 == 0 else own[int(rng.integers(len(own)))] if i % 8 in (1, 2) else hist[int(rng.integers(len(hist)))]
        plan.append((h, ["ls", "kl"][i % 2], G.STRATEGIES[int(rng.choice(3, p=[.5, .4, .1]))]))
    for h, kind, strategy in plan:
        world = ScriptedWorld(rng, strategy) if kind == "scripted" else RealWorld(rng, kind, strategy)
        what = f"{kind} {strategy} history {list(h)}"
        replay = {"history": list(h), "kind": kind, "strategy": strategy, "settings": {k: str(v)[:300] for k, v in world.settings.items()},
                  "seed": world.seed}
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                ref = {}
                for k in {op[3:] for op in h if op.startswith("run")}:
                    ref[k] = flat(world.run(world.fresh(), k))
                obj, kept = world.fresh(), []
                for n, op in enumerate(h):
                    try:
                        res = perform(world, obj, op, rng, kept)
                    except G.Runaway:
                        ck.fail(what + f": run {n + 1} does not end, on a fresh object it does", replay)
                        break
                    for m, old, snap in kept:
                        if not equal(flat(old), snap):
                            ck.fail(what + f": operation {n + 1} changed the result of run {m + 1}", replay)
                    if res is None:
                        continue
                    got = flat(res)
                    if not equal(got, ref[op[3:]]):
                        ck.fail(what + f": run {n + 1} gives {got[1]!r}, {[x.tolist() for x in got[0][:5]]}, on a fresh object {ref[op[3:]][1]!r}, "
                                f"{[x.tolist() for x in ref[op[3:]][0][:5]]}", replay)
                        break
                    # results own their data
                    kept.append((n, res, (  [x.copy() for x in got[0]], got[1])))
            except TooMany:
                raise
            except G.Runaway:
                continue
            except Exception as e:      # pylint: disable=broad-except
                ck.fail(what + f": unexpected {type(e).__name__}: {e}", replay)
                continue
        if world.asked:
            ck.fail(what + ": a run asked for the extra guesses of an earlier one", replay)
        ck.traces += 1
        ck.case((h, kind, strategy), sample={"history": list(h), "kind": kind, "strategy": strategy})


if __name__ == "__main__":
    run_check("C25", "model_checking", body)
