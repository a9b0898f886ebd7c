import numpy as np
from vlib import run_check
import greedyrun as G


def body(ck):
    rng = np.random.default_rng(ck.seed + 23)
    G.explore(ck)
    G.lists(ck, 7)
    ck.rule = ("TLC explores the run against every environment; the real run is driven by scripted environments (costs, ties, undefined costs, "
               "redundancy, magnitudes) whose behaviour TLC prints, and real optimizations are recorded and replayed through the specification")

    def report(aspect, msg, replay, key=None):
        if aspect in ("choice", "counts", "any"):
            ck.fail(msg, replay, key=key)
    G.run_scripted(ck, rng, G.make_scripts(rng, ck.n(450, 5000)), report)
    G.run_extra(ck, rng, ck.n(30, 300), report)
    G.run_real(ck, rng, ck.n(24, 200), report)


if __name__ == "__main__":
    run_check("C23", "model_checking", body)
