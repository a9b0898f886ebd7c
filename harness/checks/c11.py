import numpy as np
from vlib import run_check, guarded, tlc
import models as M
import gen
from bfit.model import AtomicGaussianDensity


def body(ck):
    rng = np.random.default_rng(ck.seed + 4)
    r = ck.model(tlc("ModelState", invariants=["Positive", "LastResize", "Emit"], properties=["RejectedChangesNothing"],
                     constants=dict(MaxPer=2, Depth=ck.n(3, 4))))
    recs = {(x["b"][0][0], x["b"][0][1], x["norm"]): x for x in M.atomic_records(ck, True, 2)}
    ck.rule = ("every history of resize / rejected resize / evaluate / rejected evaluate up to the depth, replayed on one real object; "
               "after each call its counts, pre-factors, value and derivatives are compared; distinct = history")
    hists = r.records
    if len(hists) > ck.n(1200, 60000):
        hists = [hists[i] for i in rng.permutation(len(hists))[:ck.n(1200, 60000)]]
    for h in hists:
        norm = bool(rng.random() < 0.5)
        center = None if rng.random() < .5 else np.array([0.5])
        pts = gen.points(rng, 0, "few")
        m = AtomicGaussianDensity(pts, center=center, num_s=h["first"][0], num_p=h["first"][1], normalize=norm)
        trail = []
        ck.case(str(h), sample=[x["op"] for x in h["hist"]])
        ck.traces += 1
        for st in h["hist"]:
            op = st["op"]
            trail.append([op, st["a"], st["b"]])
            replay = {"start": h["first"], "normalize": norm, "calls": trail}
            what = f"after {trail} from {h['first']}"
            n0, prev = m.num_s + m.num_p, (m.num_s, m.num_p)
            if op == "resize" and st["a"] + st["b"] == 0:
                try:
                    m.change_numb_s_and_numb_p(0, 0)
                except ValueError:      # a model may also refuse to be emptied: then nothing changes
                    if (m.num_s, m.num_p) != prev:
                        ck.fail(what + ": a rejected resize changed the model", replay)
                    break
            elif op == "resize":
                guarded(ck, what, replay, m.change_numb_s_and_numb_p, st["a"], st["b"])
            elif op == "badresize":
                args = [m.num_s + 1, m.num_p + 1]
                args[st["a"] - 1] = [1.5, "2", None, 2.0][int(rng.integers(4))]
                try:
                    m.change_numb_s_and_numb_p(*args)
                    ck.fail(what + ": non-integer size accepted", replay)
                except TypeError:
                    pass
                except Exception as e:
                    ck.fail(what + f": {type(e).__name__} instead of TypeError", replay)
            elif op == "badevaluate":
                k = n0 + st["a"]
                try:
                    m.evaluate(np.ones(k), np.ones(k), bool(rng.random() < .5))
                    ck.fail(what + f": {k} parameters accepted by a model of {n0}", replay)
                except ValueError:
                    pass
                except Exception as e:
                    ck.fail(what + f": {type(e).__name__} instead of ValueError", replay)
            elif op == "evaluate":
                m.evaluate(*gen.params(rng, n0, "plain"), bool(st["a"]))
            if (m.num_s, m.num_p, m.nbasis) != (st["ns"], st["np"], st["ns"] + st["np"]):
                ck.fail(what + f": counts {(m.num_s, m.num_p, m.nbasis)}, specified {(st['ns'], st['np'])}", replay)
                break
            if st["ns"] + st["np"] == 0:
                continue
            rec = recs[(st["ns"], st["np"], norm)]
            if len(m.prefactor) != rec["n"] or not np.allclose(np.asarray(m.prefactor, float), [x[1] / x[2] for x in rec["pref"]]):
                ck.fail(what + ": pre-factors", replay)
            c, a = gen.params(rng, rec["n"], "plain")
            before = len(ck.viol)
            M.compare(ck, what, m, rec, pts, [center], c, a, True, replay)
            if len(ck.viol) > before:
                break


if __name__ == "__main__":
    run_check("C11", "model_checking", body)
