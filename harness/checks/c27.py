import numpy as np
from vlib import run_check, MachineryError
import slater as S


def body(ck):
    rng = np.random.default_rng(ck.seed + 27)
    ck.rule = ("TLC: every generated configuration is well-formed and the listed orbitals carry all its electrons; occupations of rendered files "
               "(closed shells, cores, both orders, mentioned empty orbitals) and of every shipped file are compared with the specified ones, "
               "and their sum with the number of electrons of the atom or ion")
    files = S.real_files()
    recs = S.recorded(ck, files)
    ops = [{"op": "load", "kind": n.split("/")[0], "el": n.split("/")[1].split(".")[0], "name": n} for n in sorted(files)]
    for o, (st, got) in zip(ops, S.run_worker(files, ops)):
        r = recs[o["name"]]
        if not r["wf"]:
            raise MachineryError(f"{o['name']}: configuration not well-formed")
        if o["name"] == "cation/cs.cat" and st != "ok":
            continue        # not readable: recorded with C26
        ck.case(("shipped", o["name"]))
        ck.traces += 1
        replay = {"file": o["name"], "configuration": S.tokenize(files[o["name"]])[0][1]}
        if st != "ok":
            ck.fail(f"shipped {o['name']}: {got}", replay)
            continue
        if got["orbitals_occupation"] != r["occ"]:
            ck.fail(f"shipped {o['name']}: occupations {dict(zip(got['orbitals'], got['orbitals_occupation']))}, specified {r['occ']}", replay)
        z = S.SYMBOLS.index(o["el"]) + 1 + {"neutral": 0, "anion": 1, "cation": -1}[o["kind"]]
        if sum(got["orbitals_occupation"]) != z:
            ck.fail(f"shipped {o['name']}: occupations sum to {sum(got['orbitals_occupation'])}, the atom or ion has {z} electrons", replay)
    all_ = S.cases(ck, not ck.thorough)
    idx = rng.permutation(len(all_))[:ck.n(1200, 12000)]
    seen = {}
    for batch in S.place(rng, [all_[i] for i in idx]):
        files = {n: S.text_of(rec, S.numbers(rng, rec), rng) for n, (rec, _, _) in batch.items()}
        ops = [{"op": "load", "kind": kind, "el": el, "name": n} for n, (_, kind, el) in batch.items()]
        for o, (st, got) in zip(ops, S.run_worker(files, ops)):
            rec = batch[o["name"]][0]
            conf = S.conf_string(rec["conf"])
            ck.case(conf, sample={"configuration": conf, "specified": dict(zip(rec["d"]["orbitals"], rec["occ"]))})
            ck.traces += 1
            seen[rec["a"]["prefix"]] = seen.get(rec["a"]["prefix"], 0) + 1
            if st != "ok" or got["orbitals_occupation"] != rec["occ"]:
                ck.fail(f"configuration {conf} of {o['kind']} {o['el']}: " + (got if st != "ok" else
                        f"occupations {dict(zip(got['orbitals'], got['orbitals_occupation']))}, specified {rec['occ']}"), {"file": files[o["name"]]})
    ck.extra["prefixes"] = seen


if __name__ == "__main__":
    run_check("C27", "model_checking", body)
