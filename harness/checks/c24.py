import numpy as np
from vlib import run_check
import greedyrun as G


def body(ck):
    rng = np.random.default_rng(ck.seed + 24)
    G.explore(ck)
    G.lists(ck, 7)
    ck.rule = ("TLC explores the run against every environment; the real run is driven by scripted environments (costs, ties, undefined costs, "
               "redundancy, magnitudes) whose behaviour TLC prints, and real optimizations are recorded and replayed through the specification")

    def report(aspect, msg, replay):
        if aspect in ("stop", "any"):
            ck.fail(msg, replay)
    G.run_scripted(ck, rng, G.make_scripts(rng, ck.n(450, 5000)), report)
    G.run_real(ck, rng, ck.n(24, 200), report)


if __name__ == "__main__":
    run_check("C24", "model_checking", body)
