"""Common machinery: running cases in the code under test, judging the
recorded behaviour with TLC, evidence, replays and verdicts.

The verdict on every record is TLC's: this module only runs code, writes logs
and reads TLC's answers.
"""
import atexit
import hashlib
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("SUDOKUTOOLS_REPO", "/repo")
CORES = 8
TLA = "/opt/veriftools/tla"
CLASSPATH = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def prepare():
    """Import path and byte code cache for the code under test."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def child_env(extra=None):
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch(), "pyc")
    env["PYTHONIOENCODING"] = "utf-8"
    env.update(extra or {})
    return env


# ---------------------------------------------------------------------------
# values for the log

ODD = -999999


def num(x):
    """An integer for the log; anything else becomes ODD."""
    if isinstance(x, bool) or not isinstance(x, int):
        return ODD
    return int(x) if -10 ** 6 < x < 10 ** 6 else ODD


def chars(s):
    if not isinstance(s, str):
        return ["?not text"]
    return ["^v" if c == "\v" else c for c in s]


def pos(rc, n):
    """Position 1..n*n of a (row, column) pair, 0 if it is none."""
    try:
        r, c = rc
    except (TypeError, ValueError):
        return 0
    if num(r) == ODD or num(c) == ODD or not 0 <= r < n or not 0 <= c < n:
        return 0
    return int(r) * n + int(c) + 1


def rc(p, n):
    return (p - 1) // n, (p - 1) % n


def cset(cands):
    """A set of candidates as a sorted list of integers."""
    try:
        return sorted(set(num(x) for x in cands))
    except TypeError:
        return [ODD]


def snap(board):
    """All that can be read from a board."""
    w, h = num(board.box_width), num(board.box_height)
    n = w * h
    cells = [(r, c) for r in range(n) for c in range(n)]
    return {"w": w, "h": h, "num": [num(board[rc_]) for rc_ in cells],
            "cand": [cset(board.get_candidates(*rc_)) for rc_ in cells]}


def build(b):
    """A real board with the given content."""
    from sudokutools.sudoku import Sudoku
    n = b["w"] * b["h"]
    s = Sudoku(box_size=(b["w"], b["h"]))
    for i in range(n * n):
        s[rc(i + 1, n)] = b["num"][i]
        if "cand" in b:
            r, c = rc(i + 1, n)
            s.set_candidates(r, c, b["cand"][i])
    return s


def changes(before, after):
    """[position, number, candidates] of every field which differs."""
    if (before["w"], before["h"]) != (after["w"], after["h"]):
        return [[0, ODD, [ODD]]]
    return [[i + 1, after["num"][i], after["cand"][i]]
            for i in range(len(before["num"]))
            if before["num"][i] != after["num"][i]
            or before["cand"][i] != after["cand"][i]]


class Timeout(BaseException):
    pass


class limit(object):
    """Stop the code under test after some seconds."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        # repeated, in case the first one is swallowed
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 0.5)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def attempt(func, *args, **kwargs):
    """("ok", value) or (name of the exception, None)."""
    try:
        return "ok", func(*args, **kwargs)
    except Exception as e:
        return exc_name(e), None


def exc_name(e):
    """The most specific well-known class of an exception."""
    for cls in type(e).__mro__:
        if cls.__module__ == "builtins":
            return cls.__name__
    return "Exception"


# ---------------------------------------------------------------------------
# running cases

def give_twins(prop, cases, rng):
    """Let some cases be preceded by a similar one in the same process: what
    the code under test remembers of it must not show."""
    for case in cases:
        if case.get("kind") not in prop.alone and rng.random() < prop.twins:
            case["twin"] = rng.choice(["turned", "turned", "bare", "same"])


def twin_of(x, mode):
    """The case with boxes of width and height exchanged, or with boards
    without their candidates, or itself."""
    if isinstance(x, dict):
        x = {k: twin_of(v, mode) for k, v in x.items() if k != "twin"}
        if "w" in x and "h" in x and mode == "turned":
            x["w"], x["h"] = x["h"], x["w"]
        if "num" in x and "cand" in x and mode == "bare":
            del x["cand"]
        return x
    if isinstance(x, list):
        return [twin_of(v, mode) for v in x]
    return x


def _one(prop, case):
    if case.get("twin"):
        try:
            with limit(TWIN_LIMIT):
                prop.run(twin_of(case, case["twin"]))
        except BaseException:
            pass        # the twin is not judged
    try:
        with limit(case.get("limit", 60)):
            rec = prop.run(case)
        rec.setdefault("fault", "")
    except Timeout:
        rec = {"fault": "no answer within %s s" % case.get("limit", 60)}
    except RecursionError as e:
        rec = {"fault": "RecursionError"}
    except BaseException as e:
        rec = {"fault": "%s: %s" % (type(e).__name__, str(e)[:300]),
               "trace": traceback.format_exc()[-1500:]}
    return rec


def _worker(prop, cases, indices, path):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    sys.stdin = open(os.devnull)
    sys.stdout = open(os.devnull, "w")
    with open(path, "a") as f:
        for i in indices:
            f.write(json.dumps({"begin": i}) + "\n")
            f.flush()
            rec = _one(prop, cases[i])
            f.write(json.dumps({"i": i, "rec": rec}) + "\n")
            f.flush()
    os._exit(0)


def run_cases(prop, cases):
    """Run all cases in worker processes; a record for every case."""
    prepare()
    records = [None] * len(cases)
    todo = list(range(len(cases)))
    # expensive cases first, spread over the workers
    todo.sort(key=lambda i: -cases[i].get("cost", 1))
    chunks = [todo[k::CORES * 4] for k in range(CORES * 4)]
    queue = [c for c in chunks if c]
    active = []
    counter = 0
    while queue or active:
        while queue and len(active) < CORES:
            counter += 1
            path = os.path.join(scratch(), "out-%d" % counter)
            open(path, "w").close()
            indices = queue.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(prop, cases, indices, path)
                finally:
                    os._exit(1)
            active.append([pid, indices, path, time.time(), 0])
        time.sleep(0.01)
        for a in list(active):
            pid, indices, path, since, size = a
            done, status = os.waitpid(pid, os.WNOHANG)
            now = os.path.getsize(path)
            if now != size:
                a[3], a[4] = time.time(), now
            elif not done:
                worst = max(cases[i].get("limit", 60) for i in indices)
                if time.time() - a[3] > worst * 1.5 + 30:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    done = pid
            if not done:
                continue
            active.remove(a)
            begun, seen = None, set()
            with open(path) as f:
                for line in f:
                    try:
                        x = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in x:
                        begun = x["begin"]
                    else:
                        records[x["i"]] = x["rec"]
                        seen.add(x["i"])
            os.unlink(path)
            rest = [i for i in indices if i not in seen]
            if rest:
                lost = begun if begun in rest else rest[0]
                records[lost] = {"fault": "the process running it died or hung"}
                rest.remove(lost)
                if rest:
                    queue.append(rest)
    return records


# ---------------------------------------------------------------------------
# TLC

class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""
    out = ""        # what TLC printed so far


def tlc(module, cfg, env=None, args=(), timeout=800, heap="6g", workers=CORES,
        deque=False):
    """Run TLC on a module of the specification."""
    meta = tempfile.mkdtemp(dir=scratch())
    if "\n" in cfg or cfg == "":
        path = os.path.join(meta, "model.cfg")
        with open(path, "w") as f:
            f.write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-cp", CLASSPATH, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", path]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    start = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           stdin=subprocess.DEVNULL, errors="replace")
    except subprocess.TimeoutExpired as x:
        error = CheckError("TLC did not finish %s within %d s" % (module, timeout))
        error.out = x.stdout or ""
        if isinstance(error.out, bytes):
            error.out = error.out.decode(errors="replace")
        raise error
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    generated, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"code": p.returncode, "out": out, "generated": generated,
            "distinct": distinct, "wall": time.time() - start}


TWIN_LIMIT = 2  # seconds for running the twin of a case
ENOUGH = 50     # rejected records, when looking for more takes long
JUDGE_CFG = """CONSTANT SIZES <- LogSizes
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""


def judge(modules, records, cfg=JUDGE_CFG, timeout=800):
    """Judge records with one module, or each with the module it names."""
    if isinstance(modules, str):
        return judge_with(modules, records, cfg, timeout)
    rejected = {}
    stats = {"states": 0, "transitions": 0, "wall": 0, "accepted": 0}
    groups = dict((m, []) for m in modules)
    for i, r in enumerate(records):
        groups[r.get("judge", modules[0])].append(i)
    for m in modules:
        if groups[m]:
            rej, st = judge_with(m, [records[i] for i in groups[m]], cfg, timeout)
            for k, v in rej.items():
                rejected[groups[m][k]] = v
            for k in stats:
                stats[k] += st[k]
    return rejected, stats


def judge_with(module, records, cfg=JUDGE_CFG, timeout=800):
    """Have TLC judge the records.  Gives {index: [clauses]} of the rejected
    ones and the statistics of the run."""
    good = [i for i, r in enumerate(records) if not r["fault"]]
    rejected = {i: ["fault: " + r["fault"]]
                for i, r in enumerate(records) if r["fault"]}
    stats = {"states": 0, "transitions": 0, "wall": 0, "accepted": 0}
    if good:
        judge_some(module, records, good, cfg, timeout, rejected, stats)
    return rejected, stats


def judge_some(module, records, good, cfg, timeout, rejected, stats):
    """Judge the records with the given indices."""
    sizes = set()
    for i in good:
        r = records[i]
        if "w" in r:
            sizes.add((r["w"], r["h"]))
        for s in r.get("sizes", ()):
            sizes.add(tuple(s))
    sizes = [list(s) for s in sorted(sizes)]
    path = os.path.join(scratch(), "log.ndjson")
    with open(path + ".sizes", "w") as f:
        f.write(json.dumps(sizes))
    with open(path, "w") as f:
        for i in good:
            f.write(json.dumps(records[i]) + "\n")
    late = None
    try:
        r = tlc(module, cfg, env={"LOG": path, "LOGSIZES": path + ".sizes"}, timeout=timeout)
    except CheckError as x:
        late = x
        r = {"code": 0, "out": x.out, "distinct": 0, "generated": 0, "wall": timeout}
    os.unlink(path)
    lines = set(re.findall(r'^"(REJECT\|.*)"$', r["out"], re.M))
    done = set(re.findall(r'^"JUDGED\|(\d+)"$', r["out"], re.M))
    if not late and (r["code"] != 0 or "Error:" in r["out"]):
        # Something was observed for which the specification has no meaning.
        if len(good) == 1:
            m = re.search(r"Error: (.*(?:\n.+)?)", r["out"])
            if not re.search(r"valuat|attempted|Attempted|not in the domain|outside|CHOOSE|"
                             r"verflow|java.lang.(?:Illegal|Runtime|ClassCast|Arith)", r["out"]):
                raise CheckError("TLC failed on %s:\n%s" % (module, r["out"][-3000:]))
            rejected.setdefault(good[0], []).append(
                "nothing the specification knows: " + (m.group(1) if m else "")[:200])
            return
        half = len(good) // 2
        for some in (good[:half], good[half:]):
            judge_some(module, records, some, cfg, timeout, rejected, stats)
            if len(rejected) > ENOUGH:
                return
        return
    bad = set()
    for l in lines:
        parts = l.split("|")
        k = int(parts[1])
        bad.add(k)
        rejected.setdefault(good[k - 1], []).append("|".join(parts[2:]))
    if late and not bad:
        raise late
    # every record was judged to its end, or rejected
    missing = [k for k in range(1, len(good) + 1)
               if str(k) not in done and k not in bad]
    if missing and not late:
        raise CheckError("TLC judged %d of %d records of %s, not %s\n%s" % (
            len(done), len(good), module, missing[:5], r["out"][-1500:]))
    stats["states"] += r["distinct"]
    stats["transitions"] += r["generated"]
    stats["wall"] += r["wall"]
    stats["accepted"] += len(good) - len(bad) - len(missing)


def run_model(module, cfg, **kw):
    """A model of the specification itself; must hold, or break the given
    invariant: what is wrong with it is seen by the model."""
    fails = kw.pop("fails", None)
    r = tlc(module, cfg, **kw)
    if fails:
        if "Invariant %s is violated" % fails not in r["out"]:
            raise CheckError("the model %s %s does not break %s:\n%s" % (
                module, cfg, fails, r["out"][-3000:]))
        return r
    if r["code"] != 0 or "No error has been found" not in r["out"]:
        raise CheckError("the specification model %s %s failed:\n%s" % (
            module, cfg, r["out"][-3000:]))
    return r


def histories(module, cfg, count, depth, seed, tag="HIST", timeout=300):
    """Behaviours of a specification, by TLC's simulator."""
    r = tlc(module, cfg, args=["-simulate", "num=%d" % count, "-depth",
                               str(depth), "-seed", str(seed)],
            timeout=timeout, workers=1)
    result = []
    for m in re.findall(r'^"%s\|(.*)"$' % tag, r["out"], re.M):
        result.append(json.loads(json.loads('"%s"' % m)))
    if not result:
        raise CheckError("no behaviours from %s:\n%s" % (module, r["out"][-2000:]))
    return result, r


# ---------------------------------------------------------------------------
# a check

def known_findings(pid):
    """Entries "finding: property=<id> <key>" of the known-findings file."""
    path = os.path.join(ROOT, "known_findings.txt")
    result = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == pid:
                result.append((m.group(2), m.group(3)))
    return result


def replay_path(pid, case, rec, clauses):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    data = {"property": pid, "case": case, "rejected": clauses, "record": rec}
    text = json.dumps(data, indent=1, sort_keys=True)
    key = hashlib.sha1(json.dumps([pid, case], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (pid, key))
    with open(path, "w") as f:
        f.write(text)
    return path


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def check(prop, tier, seed):
    start = time.time()
    rng = random.Random("%s-%d" % (prop.id, seed))
    total = {"states": 0, "transitions": 0}
    models = []
    for name, cfg, kw in prop.models(tier):
        r = run_model(name, cfg, **kw)
        models.append({"module": name, "states": r["distinct"],
                       "transitions": r["generated"], "wall_s": round(r["wall"], 1)})
        total["states"] += r["distinct"]
        total["transitions"] += r["generated"]
    t_models = time.time()
    cases = prop.cases(rng, tier, seed)
    give_twins(prop, cases, random.Random("twins-%s-%d" % (prop.id, seed)))
    t_cases = time.time()
    if "sudokutools" in sys.modules:
        raise CheckError("the code under test was used to make cases")
    records = run_cases(prop, cases)
    t_run = time.time()
    prop.complete(cases, records)
    rejected, stats = judge(prop.judge, records, prop.judge_cfg,
                            timeout=3000 if tier == "thorough" else 600)
    total["states"] += stats["states"]
    total["transitions"] += stats["transitions"]

    known = dict(known_findings(prop.id))
    violations = []
    for i in sorted(rejected):
        key = case_key(cases[i])
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, known[key]))
            continue
        violations.append(i)
    shown = violations[:5]
    for i in shown:
        path = replay_path(prop.id, cases[i], records[i], rejected[i])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        print("  rejected: %s" % "; ".join(rejected[i])[:300])
    if len(violations) > len(shown):
        print("  ... and %d more violating cases" % (len(violations) - len(shown)))
    samples = []
    for i in range(0, len(cases), max(1, len(cases) // 3)):
        text = json.dumps({"case": cases[i], "record": records[i]})
        samples.append(json.loads(text) if len(text) < 3000 else text[:3000])
        if len(samples) == 3:
            break
    evidence = {
        "property": prop.id, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total["states"], "transitions": total["transitions"],
            "traces_validated_against_impl": stats["accepted"],
            "samples": samples,
            "cases_by_kind": count_kinds(cases),
            "spec_models": models,
            "judge": prop.judge,
            "measured": prop.measure(cases, records),
            "seconds": {"models": round(t_models - start, 1),
                        "cases": round(t_cases - t_models, 1),
                        "code_under_test": round(t_run - t_cases, 1),
                        "judging": round(time.time() - t_run, 1)},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - start, 1),
        "violations": len(violations),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d cases, %d rejected, %d states, %.1f s" % (
        prop.id, tier, len(cases), len(violations), total["states"],
        time.time() - start))
    return 1 if violations else 0


def count_kinds(cases):
    result = {}
    for c in cases:
        k = c.get("kind", "case")
        result[k] = result.get(k, 0) + 1
    return result


class Property(object):
    id = None
    judge = "Judge"
    judge_cfg = JUDGE_CFG
    assumptions = []
    twins = 0           # part of the cases preceded by a similar one
    alone = ()          # kinds of cases which never are

    def models(self, tier):
        """(module, cfg, options) of models of the specification."""
        return []

    def cases(self, rng, tier, seed):
        raise NotImplementedError()

    def run(self, case):
        raise NotImplementedError()

    def complete(self, cases, records):
        """Add to the records what does not come from the code."""

    def measure(self, cases, records):
        return {}


def replay(prop, path):
    data = json.load(open(path))
    cases = [data["case"]]
    records = run_cases(prop, cases)
    prop.complete(cases, records)
    rejected, stats = judge(prop.judge, records, prop.judge_cfg)
    print(json.dumps(records[0])[:3000])
    print("rejected: %s" % rejected[0] if rejected else "accepted")
    return 1 if rejected else 0
