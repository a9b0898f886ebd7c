"""Slater wave-function files: rendering, tokenizing, loading through a scratch copy of the package."""
import os
import pickle
import re
import shutil
import subprocess
import sys
import tarfile
import numpy as np
from vlib import REPO, VERIF, MachineryError, Scratch, tlc

HEAVY = ("cs ba la ce pr nd pm sm eu gd tb dy ho er tm yb lu hf ta w re os ir pt au hg tl pb bi po at rn fr ra ac th pa u np pu am cm "
         "bk cf es fm md no lr").split()
LIGHT = ("h he li be b c n o f ne na mg al si p s cl ar k ca sc ti v cr mn fe co ni cu zn ga ge as se br kr rb sr y zr nb mo tc ru rh pd "
         "ag cd in sn sb te i xe").split()
SYMBOLS = LIGHT + HEAVY        # in order of the atomic number
ANION = "ag al as b br c cl co cr cu f fe ga ge h i in k li mn mo n na nb ni o p pd rb rh ru s sb sc se si sn tc te ti v y zr".split()
CATION = ("ag al ar as b be br c ca cd cl co cr cu f fe ga ge i in k kr li mg mn mo n na nb ne ni o p pd rb rh ru s sb sc se si sn sr "
          "tc te ti v xe y zn zr").split()
EXT = {"neutral": ".slater", "anion": ".an", "cation": ".cat"}
LETTERS = "SPDF"


def tokenize(text):
    return [line.replace("=", " = ").split() for line in text.split("\n")]


def conf_tokens(word):
    """Words of a configuration string: [core], closed shells and orbitals with their numbers."""
    out = []
    for core, lab, num in re.findall(r"(\[[A-Z]+\])|([KLMN]|\d[SPDF])\((\d+)\)", word.replace(",", "")):
        out.append([core, 0] if core else [lab, int(num)])
    return out


class NoAnswer(Exception):
    """The code under test never came back (counted as a violation by run_check)."""


def run_worker(files, ops, timeout=None):
    """files: {"neutral/be.slater": text or bytes}; loads happen in one process, in the order of ops."""
    with Scratch() as d:
        pkg = os.path.join(d, "bfit")
        shutil.copytree(os.path.join(REPO, "bfit"), pkg, ignore=shutil.ignore_patterns("__pycache__", "test", "data"))
        src = os.path.join(REPO, "bfit", "data")
        data = os.path.join(pkg, "data")
        os.makedirs(data)
        for x in os.listdir(src):
            if os.path.isfile(os.path.join(src, x)) and not x.endswith(".tar"):
                os.symlink(os.path.join(src, x), os.path.join(data, x))
        for k in EXT:
            os.makedirs(os.path.join(data, k))
        for name, text in files.items():
            with open(os.path.join(data, name), "wb") as h:
                h.write(text if isinstance(text, bytes) else text.encode())
        out = os.path.join(d, "out.pkl")
        env = dict(os.environ, PYTHONPATH=d)
        timeout = timeout or (3000 if os.environ.get("VERIF_TIER") == "thorough" else 400)
        try:
            pr = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "slaterload.py"), out], input=pickle.dumps(ops), env=env, cwd=d,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer(f"loading {sorted(files)[:3]}.. and evaluating their densities took more than {timeout} s") from None
        if not os.path.exists(out):
            raise MachineryError("Slater worker failed: " + pr.stdout.decode(errors="replace")[-1500:])
        with open(out, "rb") as h:
            res = pickle.load(h)
        if not res["bfit"].startswith(d):
            raise MachineryError("worker imported " + res["bfit"])
        return res["results"]


def real_files():
    """All complete Slater files of the repository: the unpacked ones and those of the archive."""
    out = {}
    tar = os.path.join(REPO, "bfit", "data", "data.tar")
    if os.path.exists(tar):
        try:
            with tarfile.open(tar) as t:
                for m in t.getmembers():
                    parts = m.name.split("/")
                    if m.isfile() and len(parts) >= 2 and parts[-2] in EXT and parts[-1].endswith(EXT[parts[-2]]):
                        out[parts[-2] + "/" + parts[-1]] = t.extractfile(m).read()
        except tarfile.TarError:
            pass
    for k in EXT:
        base = os.path.join(REPO, "bfit", "data", k)
        for x in sorted(os.listdir(base)):
            if x.endswith(EXT[k]):
                with open(os.path.join(base, x), "rb") as h:
                    out[k + "/" + x] = h.read()
    good = {}
    for k, v in out.items():
        if b"\0" in v:          # a damaged member of the archive
            continue
        good[k] = v.decode("utf8").replace("\r", "")
    return good


def cases(ck, quick):
    const = dict(NS="{1, 3, 5, 6, 7}", NP="{0, 2, 4, 5, 6}", ND="{0, 2, 3}", NF="{0, 1}", Pats="{1, 2}", Lays="{0, 5, 13}") if quick else \
        dict(NS="1..7", NP="0..6", ND="0..4", NF="0..2", Pats="{0, 1, 2}", Lays="{0, 3, 5, 8, 13, 17}")
    const["Prefixes"] = '{"", "K", "KL", "KLM", "KLMN", "XE", "RN"}'
    return ck.model(tlc("SlaterCases", spec="Spec", invariants=["Faithful", "NoError", "ConfigOK", "Emit"], constants=const, workers=8,
                        heap="8g")).records


def numbers(rng, rec, physical=False):
    """Random numbers for the symbolic words of a rendered file, in the files' own precision."""
    val = {}
    t = float(rng.uniform(.5, 40000.)) if rng.random() < .8 else float(rng.uniform(49000., 900000.))
    val["energy"], val["kin"], val["pot"], val["ratio"] = f"{-t:.9f}", f"{t * rng.uniform(.9, 1.1):.9f}", f"{-2 * t:.9f}", "-2.000000001"
    val["q"] = "58.000000"
    d = rec["d"]
    for k, w in enumerate(d["energies"]):
        val[w] = f"{(1. if rng.random() < .1 else -1.) * float(np.exp(rng.uniform(-3., 2. if physical else 7.))):.7f}"
    for w in d["cusps"]:
        val[w] = f"{float(rng.uniform(.9, 1.1) if rng.random() < .9 else rng.uniform(-9., 9.)):.7f}"
    for x in LETTERS:
        for w in d["exps"].get(x, []):
            # as in the files, or very sharp
            val[w] = f"{float(np.exp(rng.uniform(-1., 2. if physical else 4.) if rng.random() < .85 else rng.uniform(3., 8.))):.6f}"
    for col in d["coeffs"]:
        for w in col:
            val[w] = f"{float(rng.normal() * 10. ** rng.integers(-4, 1)):.7f}"
    if rng.random() < .2:           # whole numbers printed without a fraction
        for w in d["energies"] + d["cusps"] + [w for x in LETTERS for w in d["exps"].get(x, [])] + [w for col in d["coeffs"] for w in col]:
            if rng.random() < .3:
                v = int(round(float(val[w])))
                val[w] = str(v if v or w in [u for col in d["coeffs"] for u in col] else 1)
    return val


def conf_string(conf):
    return "".join(a if a.startswith("[") else f"{a}({n})" for a, n in conf)


def text_of(rec, val, rng):
    """Lay the words out in the columns of the published files."""
    out, pad = [], " " * int(rng.choice([0, 0, 15, 40]))
    comma = "," if rng.random() < .9 else ""
    for line in rec["lines"]:
        w = [val.get(x, x) for x in line]
        if not w:
            out.append(" " * int(rng.choice([0, 0, 3])))
        elif line[0] == "NAME":
            name = ["BERYLLIUM", "CARBON-", "XENON+", "TIN"][int(rng.integers(4))]
            conf = conf_string(rec["conf"])
            if comma and rec["conf"] and len(rec["conf"]) > 2 and rng.random() < .1 and not rec["a"]["heavy"]:
                pass
            out.append(f"      {name:<9s} {conf}{comma} {['1S', '3P', '2D', '4F'][int(rng.integers(4))]}" + pad)
        elif line[0] == "E":
            wide = 16 if abs(float(w[2])) < 45000. else 19
            out.append(f"   E ={float(w[2]):{wide}.9f}")
        elif line[0] == "T":
            wide = 16 if abs(float(w[2])) < 45000. else 19
            out.append(f"   T ={float(w[2]):{wide}.9f}     V ={float(w[5]):{wide}.9f}     V/T ={float(w[8]):16.9f}")
        elif line[0] == "CHARGE":
            out.append(f"      CHARGE ={float(w[2]):10.6f}")
        elif line[0] in ("SYMMETRY", "NUMBER", "OPEN"):
            out.append("      " + f"{' '.join(w):<31s}" + "     ".join(["6", "4", "2", "0"]))
        elif line[0] == "ORBITAL":
            out.append("  " + " ".join(w))
        elif len(line[0]) == 1 and line[0] in LETTERS:
            out.append("        " + w[0] + "       " + "".join(f"{x:>15s}" for x in w[1:]) + " " * int(rng.integers(2)))
        elif line[0] in ("BASIS/ORB.ENERGY", "CUSP"):
            out.append(f"{w[0]:>18s}" + "".join(f"{float(x):15.7f}" if "." in x else f"{x:>15s}" for x in w[1:]))
        else:
            out.append("  " + w[0] + "".join(f"{float(x):{16 - k}.{6 + k}f}" if "." in x else f"{x:>16s}" for k, x in zip([0] + [1] * 20, w[1:])))
    return "\n".join(out) + ("\n" if rng.random() < .8 else "")


def subst(d, val):
    f = lambda w: float(val.get(w, w))
    return {"energy": f(d["energy"]), "kinetic_energy": f(d["kinetic"]), "potential_energy": f(d["potential"]), "orbitals": list(d["orbitals"]),
            "orbitals_energy": [f(x) for x in d["energies"]], "orbitals_cusp": [f(x) for x in d["cusps"]],
            "orbitals_exp": {k: [f(x) for x in v] for k, v in d["exps"].items()},
            "basis_numbers": {k: [int(x) for x in v] for k, v in d["numbers"].items()},
            "orbitals_basis": {k: list(v) for k, v in d["labels"].items()},
            "orbitals_coeff": {o: [f(x) for x in c] for o, c in zip(d["orbitals"], d["coeffs"])}}


def differences(got, want):
    """Names of the attributes that differ from the specified data."""
    bad = []
    for k, v in want.items():
        g = got[k]
        if isinstance(v, dict):
            keys = {x for x in v if v[x]}
            if {x for x in g if len(g[x])} != keys or any(list(g[x]) != list(v[x]) for x in keys):
                bad.append(k)
        elif isinstance(v, list):
            if list(g) != v:
                bad.append(k)
        elif g != v:
            bad.append(k)
    return bad


def recorded(ck, files):
    """The machine's reading of given files: {name: record}"""
    inp = []
    for name in sorted(files):
        kind, base = name.split("/")
        el = base.split(".")[0]
        lines = tokenize(files[name])
        inp.append({"id": name, "lines": lines, "heavy": kind == "neutral" and el in HEAVY, "conf": conf_tokens(lines[0][1])})
    r = ck.model(tlc("SlaterFiles", spec="Spec", invariants=["Emit"], inputs={"files.json": inp}, workers=8, heap="8g"))
    return {x["id"]: x for x in r.records}


def place(rng, recs):
    """Assign rendered cases to element names; yields batches {name: (rec, kind, element)}."""
    light = [r for r in recs if not r["a"]["heavy"]]
    heavy = [r for r in recs if r["a"]["heavy"]]
    while light or heavy:
        batch = {}
        slots = [("neutral", e) for e in LIGHT] + [("anion", e) for e in ANION] + [("cation", e) for e in CATION]
        slots = [slots[i] for i in rng.permutation(len(slots))]
        for kind, e in slots:
            if light:
                batch[f"{kind}/{e}{EXT[kind]}"] = (light.pop(), kind, e)
        for i in rng.permutation(len(HEAVY)):
            if heavy:
                batch[f"neutral/{HEAVY[i]}.slater"] = (heavy.pop(), "neutral", HEAVY[i])
        yield batch
