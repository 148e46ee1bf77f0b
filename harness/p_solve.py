"""C13, C14, C16: solving step by step, rating and scoring."""
import json
import os

import gen
from core import HERE, ODD, Property, attempt, build, changes, num, snap
from p_rules import puzzle_cases, scramble
from p_steps import described

ASSUMED = ["TLC and the specification (SolveLoop.tla, Techniques.tla) are trusted.",
           "The working board is only watched if solve() works on a copy made "
           "by Sudoku.copy(); otherwise the reported steps and the returned "
           "board decide alone."]


def corpus():
    path = os.path.join(HERE, "puzzles.json")
    return [tuple(x) for x in json.load(open(path))]


def variant(rng, w, h, board):
    """The same puzzle with other numbers, lines and orientation."""
    n = w * h
    sym = [0] + rng.sample(range(1, n + 1), n)
    rows = [band * h + k for band in rng.sample(range(w), w)
            for k in rng.sample(range(h), h)]
    cols = [stack * w + k for stack in rng.sample(range(h), h)
            for k in rng.sample(range(w), w)]
    out = [sym[board[r * n + c]] for r in rows for c in cols]
    if w == h and rng.random() < 0.5:
        out = [out[c * n + r] for r in range(n) for c in range(n)]
    elif w != h and rng.random() < 0.5:
        w, h = h, w
        out = [out[c * n + r] for r in range(n) for c in range(n)]
    return w, h, out


def hard_cases(rng, tier, each):
    """Variants of the corpus: all techniques are needed there."""
    result = []
    for w, h, board, used in corpus():
        for _ in range(each):
            w2, h2, b2 = variant(rng, w, h, board)
            known = gen.solutions(w2, h2, b2, 2)
            result.append({"kind": "hard", "known": known, "limit": 120,
                           "cost": 1000,
                           "b": {"w": w2, "h": h2, "num": b2,
                                 "cand": [[] for _ in b2]}})
    return result


def stuck_cases(rng, count):
    """Small boards with any numbers: solving often ends without a solution,
    with any technique as the last one."""
    result = []
    for _ in range(count):
        w, h = rng.choice([(2, 2), (2, 2), (2, 3), (3, 2), (1, 4), (3, 1), (2, 4)])
        n = w * h
        part = rng.uniform(0.15, 0.45)
        board = [rng.randint(1, n) if rng.random() < part else 0 for _ in range(n * n)]
        if rng.random() < 0.6:
            # without conflicts
            g = gen.Geo(w, h)
            for i in range(n * n):
                if board[i] and any(board[j] == board[i] for j in g.peers[i]):
                    board[i] = 0
        result.append({"kind": "stuck", "known": gen.solutions(w, h, board, 2) or [],
                       "cost": n ** 3, "limit": 60,
                       "b": {"w": w, "h": h, "num": board, "cand": [[] for _ in board]}})
    return result


class Solve(Property):
    twins = 0.2
    judge = "JudgeSolve"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCSolve", "QSolve.cfg" if tier == "quick" else "MCSolve.cfg", {})]

    def puzzles(self, rng, tier, spread, each):
        if tier == "quick":
            hard = [c for c in hard_cases(rng, tier, 1)]
            hard = rng.sample(hard, min(len(hard), each))
        else:
            hard = hard_cases(rng, tier, each)
        result = hard + puzzle_cases(rng, tier, spread, 2)
        result += stuck_cases(rng, 150 if tier == "quick" else 1500)
        for c in result:
            c["what"] = c["kind"]
            c["known"] = c["known"][:2]
        return result


class C13(Solve):
    id = "C13"

    def cases(self, rng, tier, seed):
        result = self.puzzles(rng, tier, (10, 10, 40, 4), 30 if tier == "quick" else 10)
        for c in result:
            c["kind"] = "result"
            if c["what"] == "hard" and rng.random() < 0.7:
                b = c["b"]
                b["cand"] = rng.choice([gen.random_cands(b["w"], b["h"], rng),
                                        gen.calc(b["w"], b["h"], b["num"])])
        return result

    def run(self, case):
        from sudokutools.solvers import solve
        b = case["b"]
        s = build(b)
        e, got = attempt(solve, s)
        result = snap(s)
        if e == "ok":
            result = snap(got)
            # later changes of the result do not matter to the puzzle
            scramble(got)
        return {"kind": "result", "w": b["w"], "h": b["h"], "b": b, "err": e,
                "known": case["known"], "result": result, "after": snap(s)}


class C14(Solve):
    id = "C14"

    def cases(self, rng, tier, seed):
        result = self.puzzles(rng, tier, (6, 8, 30, 2), 60 if tier == "quick" else 10)
        for c in result:
            c["kind"] = "trace"
        return result

    def run(self, case):
        from sudokutools.solvers import solve
        from sudokutools.sudoku import Sudoku
        b = case["b"]
        n = b["w"] * b["h"]
        copies = []

        class Spied(Sudoku):
            def copy(self, *args, **kwargs):
                x = Sudoku.copy(self, *args, **kwargs)
                copies.append(x)
                return x

        s = Spied(box_size=(b["w"], b["h"]))
        for i, v in enumerate(b["num"]):
            s[i // n, i % n] = v
            s.set_candidates(i // n, i % n, b["cand"][i])
        base = {"w": b["w"], "h": b["h"], "num": list(b["num"]),
                "cand": [[v] if v else [] for v in b["num"]]}
        steps, seen = [], {}

        def report(step):
            d = described(step, n)
            d["chg"] = []
            for k, c in enumerate(copies):
                now = snap(c)
                before = seen.get(k, base)
                seen[k] = now
                d.setdefault("watch", {})[k] = [
                    {"p": p, "v": v, "c": x} for p, v, x in changes(before, now)]
            steps.append(d)
            if len(steps) > 5000:
                raise RuntimeError("endless")

        e, got = attempt(solve, s, report)
        which = [k for k, c in enumerate(copies) if c is got]
        spied = bool(which) and all(which[0] in d.get("watch", {}) for d in steps)
        for d in steps:
            watch = d.pop("watch", {})
            if spied:
                d["chg"] = watch[which[0]]
        return {"kind": "trace", "w": b["w"], "h": b["h"], "b": b, "err": e,
                "known": case["known"], "steps": steps, "spied": spied,
                "result": snap(got) if e == "ok" else snap(s)}

    def measure(self, cases, records):
        count, watched = {}, 0
        for r in records:
            watched += bool(r.get("spied"))
            for x in r.get("steps", []):
                count[x["t"]] = count.get(x["t"], 0) + 1
        return {"steps validated": count, "working boards watched": watched}


class C16(Solve):
    id = "C16"

    def cases(self, rng, tier, seed):
        result = self.puzzles(rng, tier, (10, 10, 30, 3), 60 if tier == "quick" else 10)
        for c in result:
            c["kind"] = "rate"
            c["order"] = rng.randrange(3)
        return result

    def run(self, case):
        from sudokutools.analyze import rate, score
        from sudokutools.solvers import solve
        b = case["b"]
        s = build(b)
        steps = []
        errors = [attempt(solve, build(b), lambda x: steps.append(type(x).__name__))[0]]
        got = {}
        for name in (("rate", "score"), ("score", "rate"), ("rate", "score", "rate"))[case["order"]]:
            e, got[name] = attempt(rate if name == "rate" else score, s)
            errors.append(e)
        bad = [e for e in errors if e != "ok"]
        return {"kind": "rate", "w": b["w"], "h": b["h"], "b": b,
                "err": bad[0] if bad else "ok", "known": case["known"],
                "steps": steps, "rate": num(got["rate"]), "score": num(got["score"]),
                "after": snap(s)}

    def measure(self, cases, records):
        count = {}
        for r in records:
            count[r.get("rate")] = count.get(r.get("rate"), 0) + 1
        return {"ratings": dict((str(k), v) for k, v in count.items())}
