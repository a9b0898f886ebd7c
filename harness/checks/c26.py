import numpy as np
from vlib import run_check, MachineryError
import slater as S


def case_of(rng, el):
    return [el, el.upper(), el.capitalize()][int(rng.integers(3))]


def load_all(ck, rng, files, want, what):
    """want: {name: specified data}; every file is loaded twice, interleaved, the first results being overwritten."""
    ops = []
    for n in list(files) * 2:
        kind, base = n.split("/")
        ops.append({"op": "load", "kind": kind, "el": case_of(rng, base.split(".")[0]), "name": n, "spoil": bool(rng.random() < .6)})
    ops = [ops[i] for i in rng.permutation(len(ops))]
    res = S.run_worker(files, ops)
    for n, (o, (st, got)) in enumerate(zip(ops, res)):
        w = want[o["name"]]
        ck.case((what, o["name"], w.get("key")))
        ck.traces += 1
        replay = {"file": files[o["name"]], "operations": [(x["el"], x["kind"]) for x in ops[:n + 1]][-12:], "name": o["name"]}
        if st != "ok":
            ck.fail(f"{what} file {o['name']} (loaded as {o['el']!r}): {got}", replay, key="cation-cs" if o["name"] == "cation/cs.cat" else None)
            continue
        bad = S.differences(got, w["data"])
        if bad:
            k = bad[0]
            ck.fail(f"{what} file {o['name']} (loaded as {o['el']!r}): {bad} differ, {k} = {str(got[k])[:200]}, in the file {str(w['data'][k])[:200]}",
                    replay)
            continue
        conf = w["conf_word"]
        if not o["kind"] == "neutral" or o["el"].lower() not in S.HEAVY:
            if got["configuration"] != conf:
                ck.fail(f"{what} file {o['name']}: configuration {got['configuration']!r}, in the file {conf!r}", replay)
        n_orb = len(w["data"]["orbitals"])
        if got["shapes"]["orbitals_energy"] != (n_orb, 1) or got["shapes"]["orbitals_occupation"] != (n_orb, 1):
            ck.fail(f"{what} file {o['name']}: shapes {got['shapes']} for {n_orb} orbitals", replay)


def body(ck):
    rng = np.random.default_rng(ck.seed + 26)
    ck.rule = ("the reading machine reproduces the content of every rendered file within bounds (TLC); rendered files with random numbers, layouts "
               "and blank lines, and every shipped file read by the same machine, are compared field by field with what the package loads, each "
               "loaded twice in random order and letter case, earlier results overwritten")
    files = S.real_files()
    recs = S.recorded(ck, files)
    want = {}
    for n in files:
        r = recs[n]
        if not r["shapes"]:
            raise MachineryError(f"{n} is not a well-formed Slater file for the specification ({r['pc']})")
        want[n] = {"data": S.subst(r["d"], {}), "conf_word": S.tokenize(files[n])[0][1].replace(",", "")}
    ck.extra["shipped_files"] = len(files)
    load_all(ck, rng, files, want, "shipped")
    all_ = S.cases(ck, not ck.thorough)
    idx = rng.permutation(len(all_))[:ck.n(700, 6000)]
    for batch in S.place(rng, [all_[i] for i in idx]):
        files, want = {}, {}
        for n, (rec, _, _) in batch.items():
            val = S.numbers(rng, rec)
            files[n] = S.text_of(rec, val, rng)
            want[n] = {"data": S.subst(rec["d"], val), "conf_word": S.conf_string(rec["conf"]), "key": str(rec["a"])}
        load_all(ck, rng, files, want, "rendered")


if __name__ == "__main__":
    run_check("C26", "model_checking", body)
