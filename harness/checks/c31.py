import itertools
import os
import numpy as np
from vlib import run_check, guarded, tlc, REPO
import slater as S
from bfit.parse_ugbs import get_ugbs_exponents


def spellings(e):
    return sorted({"".join(x) for x in itertools.product(*[(c.lower(), c.upper()) for c in e])})


def body(ck):
    rng = np.random.default_rng(ck.seed + 31)
    ck.rule = ("every element symbol (listed or not, every spelling) against the table's content as read by the specification; every small table "
               "within bounds (TLC: line-by-line reading equals the table's content) rendered into a scratch copy of the package")
    path = os.path.join(REPO, "bfit", "data", "ygbs")
    with open(path, encoding="utf8") as h:
        lines = [x.split() for x in h.read().split("\n")]
    syms = [{"id": e, "spellings": spellings(e)} for e in S.SYMBOLS + ["rf", "x", "xx", "q"]]
    r = ck.model(tlc("UgbsFile", invariants=["Emit"], inputs={"table.json": lines, "symbols.json": syms}, workers=8, heap="6g"))
    listed = 0
    for rec in r.records:
        want = {k: [float(x) for x in v] for k, v in rec["d"].items()}
        listed += any(want.values())
        for word in spellings(rec["id"]) * 2:
            ok, got = guarded(ck, f"exponents of {word}", {"element": word}, get_ugbs_exponents, word)
            ck.case((rec["id"], word), sample={"element": word, "numbers": {k: len(v) for k, v in want.items()}})
            if not ok:
                continue
            ck.traces += 1
            g = {k: list(got.get(k, [])) for k in set(got) | set(want)}
            if any(g[k] != want.get(k, []) for k in g):
                ck.fail(f"exponents of {word}: " + "; ".join(f"{k}: {len(g[k])} returned, {len(want.get(k, []))} in the table" +
                        ("" if len(g[k]) != len(want.get(k, [])) else ", values or order differ") for k in g if g[k] != want.get(k, [])), {"element": word})
            for v in got.values():          # results are the caller's own
                if isinstance(v, list):
                    v.append(-1.)
    # words that are no symbols, also when they contain one
    for e in ("h", "He", "U", "zn", "Al"):
        for word in (e + "3", e + " ", " " + e, "1" + e, e + "+", e + "-", "-" + e, e + ":", e + "1s", "^" + e, e + "\n", e + e, "*", "1", "1s", "s", "p", "."):
            if word.lower() in S.SYMBOLS:
                continue
            ok, got = guarded(ck, f"exponents of {word!r}", {"element": word}, get_ugbs_exponents, word)
            ck.case(("no symbol", word))
            if ok and any(len(v) for v in got.values()):
                ck.fail(f"exponents of {word!r}, which the table does not list: {({k: len(v) for k, v in got.items()})}", {"element": word})
    ck.extra["elements_in_the_table"] = listed
    recs = []
    for symset, fill, n in ck.n([('{"h", "he"}', "{0, 2, 3}", 2), ('{"s", "se"}', "{0}", 2)],
                                [('{"h", "he"}', "{0, 1, 2, 3}", 2), ('{"s", "se"}', "{0, 2}", 2), ('{"h"}', "{0, 3}", 4), ('{"s"}', "{0, 2}", 4)]):
        recs += ck.model(tlc("UgbsCases", spec="Spec", invariants=["Agree", "Complete", "Emit"],
                             constants=dict(MaxEntries=n, Syms=symset, Fillers=fill), workers=8)).records
    idx = rng.permutation(len(recs))[:ck.n(250, 1200)]
    ops, want, texts = [], [], []
    for i in idx:
        rec = recs[i]
        val, out = {}, []
        for ws in rec["lines"]:
            ws = list(ws)
            if ws and ws[0][0] == "x":
                val[ws[0]] = f"{float(np.exp(rng.uniform(-5, 12))):.12f}"
                if len(val) > 1 and rng.random() < .3:      # the same exponent again
                    val[ws[0]] = list(val.values())[int(rng.integers(len(val) - 1))]
                ws = ["  ", val[ws[0]], "        ", ws[1]]
            out.append("    ".join(ws) if len(ws) == 2 else " ".join(ws))
        text = "\n".join(out) + "\n" * int(rng.integers(2))
        for e, d in rec["want"].items():
            for word in [spellings(e)[int(rng.integers(len(spellings(e))))]]:
                ops.append({"op": "ugbs", "table": text, "el": word})
                want.append({k: [float(val[x]) for x in v] for k, v in d.items()})
                texts.append(text)
    for o, w, (st, got) in zip(ops, want, S.run_worker({}, ops)):
        ck.case(("table", o["table"], o["el"]))
        ck.traces += 1
        if st != "ok" or any(list(got.get(k, [])) != w.get(k, []) for k in set(got) | set(w)):
            ck.fail(f"table {o['table']!r}, element {o['el']}: {got}, specified {w}", {"table": o["table"], "element": o["el"]})


if __name__ == "__main__":
    run_check("C31", "model_checking", body)
