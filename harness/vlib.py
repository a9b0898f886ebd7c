"""Shared machinery: TLC runs, conformance bookkeeping, evidence, verdict lines.

Exit status of a check: 0 = the property held on everything explored, 1 = a violation
(with a VIOLATION line), 2 = the machinery itself failed (never a verdict).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


class MachineryError(Exception):
    pass


class Scratch:
    """A scratch directory that is removed when the process is done with it."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="bfitvc-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class TlcResult:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.text = ""
        self.violated = None      # name of a violated invariant / property, if any
        self.out_json = None


def tlc(module, init="Init", next_="Next", invariants=(), properties=(), constants=None,
        inputs=None, constraints=(), spec=None, simulate=None, depth=None, seed=None,
        workers=1, heap="3g", timeout=800, out_file=None, allow_violation=False,
        coverage=False, postcondition=None, view=None, deadlock_ok=True):
    """Run TLC on /verif/spec/<module>.tla in a scratch directory.

    inputs: {"name.json": object} is written beside the specification (read with JsonDeserialize).
    Records printed with PrintT("@@" \\o ToJson(..)) come back in .records.
    """
    res = TlcResult()
    with Scratch() as d:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, obj in (inputs or {}).items():
            with open(os.path.join(d, name), "w") as h:
                json.dump(obj, h)
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {i}" for i in properties]
        cfg += [f"CONSTRAINT {i}" for i in constraints]
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if view:
            cfg.append(f"VIEW {view}")
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}")
        with open(os.path.join(d, "MC.cfg"), "w") as h:
            h.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-config", "MC.cfg", "-noGenerateSpecTE"]
        if deadlock_ok:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        try:
            pr = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                timeout=timeout, text=True)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC on {module} took more than {timeout}s") from e
        txt = pr.stdout
        res.text = txt
        for line in txt.splitlines():
            if line.startswith('"@@'):
                res.records.append(json.loads(json.loads(line)[2:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", txt)
            if m:
                res.generated = res.distinct = int(m.group(1))
        m = re.search(r"The depth of the complete state graph search is (\d+)", txt)
        if m:
            res.depth = int(m.group(1))
        m = re.search(r"(?:Invariant|Action property|Temporal property) (\S+) is violated", txt) or \
            re.search(r"(Temporal properties) were violated", txt)
        if m:
            res.violated = m.group(1)
        if out_file and os.path.exists(os.path.join(d, out_file)):
            with open(os.path.join(d, out_file)) as h:
                res.out_json = json.load(h)
        ok = pr.returncode == 0 and "Error:" not in txt
        if not ok and not (allow_violation and res.violated):
            seen, keep = set(), []
            for x in txt.splitlines():
                if x.strip() and x not in seen and not re.match(r'"@@|Parsing file|Semantic proc|Linting', x):
                    seen.add(x)
                    keep.append(x[:300])
            tail = "\n".join(keep)[:2500]
            raise MachineryError(f"TLC failed on {module} (rc {pr.returncode}):\n{tail}")
    return res


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.known = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            with open(path) as h:
                for line in h:
                    m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                    if m and m.group(1) == pid:
                        self.known[m.group(2)] = m.group(3)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, r):
        """Count the states TLC explored."""
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def case(self, key=None, sample=None):
        self.evaluations += 1
        if key is not None:
            self.distinct.add(key if isinstance(key, (str, int, tuple)) else json.dumps(key, sort_keys=True))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def fail(self, what, replay=None, key=None):
        """Report a disagreement with the specification."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.viol.append((what, replay))
        if len(self.viol) >= 40:
            raise TooMany()

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples or [self.rule],
               "states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
        for k, n in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} key={k} {self.known[k]} ({n} cases)")
        if self.viol:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.pid}.json")
            with open(path, "w") as h:
                json.dump([{"what": w, "replay": r} for w, r in self.viol], h, indent=1, default=str)
            for w, _ in self.viol[:8]:
                print("  " + str(w)[:600])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} evaluations={self.evaluations} "
              f"distinct={len(self.distinct)} states={self.states} wall={ev['wall_s']}s")
        return 0


class TooMany(Exception):
    pass


WATCHDOG = 780


def watchdog(ck):
    """A call into the code under test that never returns is a violation, not a missing answer."""
    def bark(_, frame):
        stack = traceback.extract_stack(frame)
        inside = [f for f in stack if os.path.abspath(f.filename).startswith(os.path.join(REPO, "bfit") + os.sep)]
        if not inside:
            print(f"MACHINERY-ERROR property={ck.pid}: out of time")
            sys.stdout.flush()
            os._exit(2)
        try:
            ck.fail(f"no result within the time limit: still at {inside[-1].filename}:{inside[-1].lineno} after {WATCHDOG} s",
                    {"stack": [f"{f.filename}:{f.lineno} {f.name}" for f in stack][-30:]})
        except TooMany:
            pass
        ck.finish()
        sys.stdout.flush()
        os._exit(1)
    signal.signal(signal.SIGALRM, bark)
    signal.alarm(WATCHDOG)


def run_check(pid, level, body):
    ck = Check(pid, level)
    if not ck.thorough:
        watchdog(ck)
    try:
        try:
            body(ck)
        except TooMany:
            pass
        rc = ck.finish()
    except MachineryError as e:
        print(f"MACHINERY-ERROR property={pid}: {e}")
        rc = 2
    except Exception as e:      # a bug of the harness is never a verdict; one raised by the code under test is
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if os.path.abspath(f.filename).startswith(os.path.join(REPO, "bfit") + os.sep)]
        private = isinstance(e, AttributeError) and str(e.name or "_").startswith("_") and not (
            frames and inside and frames[-1] is inside[-1])
        # errors of the environment are the code's only if its own frames were the last to run
        foreign = isinstance(e, (MemoryError, ImportError, OSError, subprocess.SubprocessError)) and not (
            isinstance(e, OSError) and inside and frames[-1] is inside[-1])
        if not private and not foreign:
            # raised by the code under test, or by a result that is not of the specified form
            where = (inside or frames)[-1]
            try:
                ck.fail(f"unexpected {type(e).__name__} at {where.filename}:{where.lineno}: {e}",
                        {"traceback": traceback.format_exc()[-2000:]})
            except TooMany:
                pass
            rc = ck.finish()
        else:
            print(f"MACHINERY-ERROR property={pid}")
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


def guarded(ck, what, replay, fn, *a, key=None, **k):
    """Call into the implementation; an unexpected exception there is a violation."""
    try:
        return True, fn(*a, **k)
    except TooMany:
        raise
    except Exception as e:      # pylint: disable=broad-except
        ck.fail(f"{what}: unexpected {type(e).__name__}: {e}", replay, key=key)
        return False, None
