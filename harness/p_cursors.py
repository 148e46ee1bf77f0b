"""C29: searches under way do not disturb boards or each other."""
import json
import os
import random
import select
import time

import gen
from core import Property, build, changes, exc_name, histories, num, pos, rc, snap
from p_rules import scramble
from p_steps import ORDER, candidate_state, described, solver

CAP = 60


def small_board(rng):
    """A board with few solutions, or none."""
    while True:
        w, h = rng.choice(gen.SMALL + gen.MIDDLE + gen.NORMAL + [(2, 2), (3, 3)] * 3)
        n = w * h
        kind = rng.randrange(5)
        if kind == 0:
            b, _ = candidate_state(rng, w, h, rng.random() < 0.7, rng.choice(ORDER[1:]))
            num, cand = b["num"], b["cand"]
        else:
            if kind == 1:
                num, _ = gen.unique_puzzle(w, h, rng, None if n < 9 else 50)
            elif kind == 2:
                num = gen.noise(w, h, rng, rng.choice([0.3, 0.8, 1]))
            else:
                num, _ = gen.unique_puzzle(w, h, rng, None if n < 9 else 50)
                for i in rng.sample(range(n * n), min(n * n, rng.randint(1, 3))):
                    num[i] = 0
            cand = rng.choice([gen.calc(w, h, num), gen.calc(w, h, num), [[] for _ in num],
                               gen.random_cands(w, h, rng)])
        found = gen.solutions(w, h, num, CAP + 1, None, 5000)
        if found is not None and len(found) <= 25:
            return {"w": w, "h": h, "num": num, "cand": cand}


def likely_board(rng, kind, x):
    """A board in which a search is likely to give several results."""
    w, h = rng.choice(gen.SMALL + gen.MIDDLE + [(2, 2), (3, 3), (3, 3)])
    if kind == "conflicts":
        full = gen.grid(w, h, rng)
        b = [v if rng.random() < 0.6 else 0 for v in full]
        for i in rng.sample(range(len(b)), max(1, len(b) // 4)):
            b[i] = rng.randint(1, w * h)
        return {"w": w, "h": h, "num": b, "cand": [[] for _ in b]}
    if kind == "find":
        return dict((k, v) for k, v in candidate_state(
            rng, w, h, rng.random() < 0.5, ORDER[x])[0].items() if k in ("w", "h", "num", "cand"))
    return small_board(rng)


def crossing(rng, kind, x):
    """Two or three searches of one kind, one of them paused while others go on."""
    pool = [likely_board(rng, kind, x) for _ in range(12 if kind == "find" else 4)]
    # what becomes of the second board, see run
    change = [rng.choice(["same", "noise", "noise", "one", "other"]), rng.random(), rng.random()]
    first = rng.choice([1, 1, 2, 3])
    other = rng.choice([1, 2])
    ops = [{"op": "open", "kind": kind, "x": x, "b": 1}]
    ops += [{"op": "next", "c": 1}] * first
    for c in range(2, rng.choice([3, 3, 4])):
        ops += [{"op": "open", "kind": kind, "x": x, "b": other if c == 2 else 1}]
        ops += [{"op": "next", "c": c}] * rng.choice([1, 2, 3, 45, 45])
        if rng.random() < 0.3:
            ops += [{"op": "drop", "c": c}]
        if rng.random() < 0.3:
            ops += [{"op": "ask", "x": rng.randrange(1000), "b": rng.choice([1, 2])}]
    ops += [{"op": "next", "c": 1}] * 45
    return {"kind": "crossing", "boards": pool, "what": [kind, x], "change": change,
            "ops": ops, "seed": rng.randrange(10 ** 6), "cost": 3 * len(pool[0]["num"])}


def richest(case):
    """The two boards of a crossing: the one with most results, and another."""
    kind, x = case["what"]
    best, most = case["boards"][0], -1
    for b in case["boards"]:
        err, found = alone(whole, kind, x, b)
        if err == "ok" and found is not None and most < len(found) <= 40:
            best, most = b, len(found)
        if most >= 4:
            break
    how, p, q = case["change"]
    two = json.loads(json.dumps(best))
    rng = random.Random(case["seed"])
    n = best["w"] * best["h"]
    if how == "noise":
        # another filling of the same shape: likely without solutions
        two["num"] = gen.noise(best["w"], best["h"], rng, rng.choice([0.2, 0.5]))
    elif how == "one":
        two["num"][rng.randrange(n * n)] = rng.choice([0, rng.randint(1, n)])
    elif how == "other":
        two = rng.choice(case["boards"])
    return [best, two]


def start(kind, x, s):
    """A search of some kind: an iterator over described results."""
    from sudokutools.analyze import find_conflicts
    from sudokutools.solve import bruteforce, dlx
    from sudokutools.solvers import hints
    if kind == "bruteforce":
        return bruteforce(s)
    if kind == "dlx":
        return dlx(s)
    if kind == "hints":
        return hints(s)
    if kind == "find":
        return solver(ORDER[x % len(ORDER)]).find(s)
    if kind == "conflicts":
        return find_conflicts(s)
    n = s.box_width * s.box_height
    return iter([iter, lambda b: b.empty(), lambda b: b.filled(),
                 lambda b: b.surrounding_of(x % n, x // 7 % n)][x % 4](s))


def told(kind, n, r):
    """What a search gave, in the format of the log."""
    if kind in ("bruteforce", "dlx"):
        return {"k": "grid", "num": snap(r)["num"]}
    if kind in ("hints", "find"):
        return dict(described(r, n), k="step")
    if kind == "conflicts":
        (a, b, v) = r
        return {"k": "pair", "a": pos(a, n), "b": pos(b, n), "v": num(v)}
    return {"k": "field", "p": pos(r, n)}


def alone(what, *args):
    """The answer of a process in which nothing else happened."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                text = json.dumps(["ok", what(*args)])
            except Exception as e:
                text = json.dumps([exc_name(e), None])
            with os.fdopen(w, "w") as f:
                f.write(text)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else ["died", None]


def whole(kind, x, b):
    n = b["w"] * b["h"]
    out = []
    for r in start(kind, x, build(b)):
        out.append(told(kind, n, r))
        if len(out) > CAP * (1 if kind in ("bruteforce", "dlx") else 20):
            return None
    return out


ASKS = ["unique", "solved", "rate", "score", "encode", "view", "copy", "conflicts", "calc",
        "count", "str", "solution"]


def ask(name, x, s):
    from sudokutools import analyze
    from sudokutools.solve import bruteforce, calc_candidates, dlx
    from sudokutools.sudoku import view
    n = s.box_width * s.box_height
    if name == "unique":
        return bool(analyze.is_unique(s))
    if name == "solved":
        return bool(analyze.is_solved(s))
    if name == "rate":
        return analyze.rate(s)
    if name == "score":
        return analyze.score(s)
    if name == "encode":
        return s.encode(col_sep="/", include_candidates=True)
    if name == "view":
        return view(s)
    if name == "str":
        return str(s)
    if name == "copy":
        return snap(s.copy(include_candidates=bool(x % 2)))
    if name == "conflicts":
        return sorted(told("conflicts", n, c)["a"] for c in analyze.find_conflicts(s))
    if name == "calc":
        return sorted(calc_candidates(s, x % n, x // 10 % n))
    if name == "count":
        return s.count() if hasattr(s, "count") else len(list(s.filled()))
    # the first solution, the rest of the search is thrown away
    for g in (bruteforce, dlx)[x % 2](s):
        return len(snap(g)["num"])
    return 0


def ask_alone(name, x, b):
    return ask(name, x, build(b))


def solve_alone(b):
    from sudokutools.solvers import solve
    return snap(solve(build(b)))["num"]


class Desk(object):
    """Boards and the searches in them."""
    def __init__(self, boards, seed):
        self.boards = [build(b) for b in boards]
        self.seen = [snap(s) for s in self.boards]
        self.start = self.seen
        self.cur = []
        self.names = {}         # cursors of the schedule -> those of the log
        self.rng = random.Random(seed)
        self.events = []

    def done(self, e, err="ok"):
        e["err"] = err
        e["chg"] = []
        for i, s in enumerate(self.boards):
            now = snap(s)
            e["chg"] += [{"b": i + 1, "p": p, "v": v, "c": c}
                         for p, v, c in changes(self.seen[i], now)]
            self.seen[i] = now
        self.events.append(e)

    def step(self, op, c):
        """Advance a cursor."""
        e = {"op": "next", "c": self.names[c] + 1, "end": False}
        cur = self.cur[self.names[c]]
        try:
            cur["last"] = next(cur["gen"])
            e["res"] = told(cur["kind"], cur["n"], cur["last"])
        except StopIteration:
            e["end"] = True
            cur["last"] = None
            cur["ended"] = cur.get("ended") or True
        except Exception as x:
            return self.done(e, exc_name(x))
        self.done(e)

    def do(self, o):
        op = o["op"]
        c = o.get("c")
        if c is not None and op not in ("solve", "ask") and c not in self.names:
            return
        if op == "open":
            number = self.opened = getattr(self, "opened", 0) + 1
            s = self.boards[o["b"] - 1]
            err, result = alone(whole, o["kind"], o["x"], snap(s))
            if err == "ok" and result is None:
                return      # too much to look at
            e = {"op": "open", "kind": o["kind"], "b": o["b"], "all": result or []}
            if err != "ok":
                return self.done(e, err)
            try:
                g = start(o["kind"], o["x"], s)
            except Exception as x:
                return self.done(e, exc_name(x))
            self.names[number] = len(self.cur)
            self.cur.append({"kind": o["kind"], "gen": g, "n": s.box_width * s.box_height,
                             "last": None, "b": o["b"] - 1})
            self.done(e)
        elif op == "next":
            # the end once again is enough
            ended = self.cur[self.names[c]].get("ended")
            if ended != "again":
                self.cur[self.names[c]]["ended"] = "again" if ended else None
                self.step(op, c)
        elif op == "drop":
            cur = self.cur[self.names[c]]
            g, cur["gen"] = cur["gen"], iter(())
            if self.rng.random() < 0.5 and hasattr(g, "close"):
                g.close()
            del g
            self.done({"op": "drop", "c": self.names[c] + 1})
        elif op == "write":
            s = self.boards[o["b"] - 1]
            n = s.box_width * s.box_height
            p = o["x"] % (n * n) + 1
            v = self.rng.choice([0, self.rng.randint(1, n)])
            cs = sorted(self.rng.sample(range(1, n + 1), self.rng.randint(0, min(n, 4))))
            r, q = rc(p, n)
            s[r, q] = v
            s.set_candidates(r, q, set(cs))
            self.done({"op": "write", "b": o["b"], "p": p, "v": v, "s": cs})
        elif op == "scribble":
            cur = self.cur[self.names[c]]
            if cur["kind"] in ("bruteforce", "dlx") and cur["last"] is not None:
                scramble(cur["last"])
                self.done({"op": "scribble"})
        elif op == "apply":
            cur = self.cur[self.names[c]]
            if cur["kind"] in ("hints", "find") and cur["last"] is not None:
                # to a board which is as it was when the step was found
                one, two = build(self.seen[cur["b"]]), build(self.seen[cur["b"]])
                cur["last"].apply(one)
                before = snap(one)
                cur["last"].apply(two)
                self.done({"op": "apply", "same": snap(two) == before == snap(one)})
        elif op == "ask":
            name = ASKS[o["x"] % len(ASKS)]
            s = self.boards[o["b"] - 1]
            if name in ("rate", "score") and self.hopeless(s):
                return
            err, answer = alone(ask_alone, name, o["x"], snap(s))
            try:
                got = json.loads(json.dumps(ask(name, o["x"], s)))
                e = "ok"
            except Exception as x:
                e, got = exc_name(x), None
            self.done({"op": "ask", "what": name, "same": (err, answer) == (e, got)})
        elif op == "solve":
            from sudokutools.solvers import solve
            s = self.boards[o["b"] - 1]
            if self.hopeless(s):
                return
            err, answer = alone(solve_alone, snap(s))
            count = [0]

            def report(step):
                # other searches go on meanwhile
                if count[0] < 6 and c in self.names:
                    count[0] += 1
                    self.step("next", c)
            try:
                got = snap(solve(s, report))["num"]
                e = "ok"
            except Exception as x:
                e, got = exc_name(x), None
            self.done({"op": "solve", "same": (err, answer) == (e, got)})

    def hopeless(self, s):
        """Not uniquely solvable: anything may come out."""
        b = snap(s)
        found = gen.solutions(b["w"], b["h"], b["num"], 2, None, 3000)
        return found is None or len(found) != 1


class C29(Property):
    id = "C29"
    judge = "JudgeCursors"
    assumptions = [
        "TLC and the specification (Cursors.tla) are trusted.",
        "What a search gives when run alone is taken from a process of its own; whether that is "
        "right is decided by C08, C09, C11 and C15 (here only: solutions, nothing twice).",
        "A board is not written to while a technique, hint or conflict search on it is under way, "
        "or before an exhaustive search gave its first result.",
        "Searches are advanced by one thread."]

    def models(self, tier):
        return [("MCCursors", "MCCursors.cfg" if tier == "quick" else "WCursors.cfg",
                 {"timeout": 1500})]

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        made, _ = histories("MCCursors", "GenCursors.cfg", 300 if quick else 6000,
                            50, seed)
        result = []
        for h in made:
            boards = [small_board(rng) for _ in range(2)]
            if rng.random() < 0.3:
                boards[1] = json.loads(json.dumps(boards[0]))
            result.append({"kind": "schedule", "boards": boards, "ops": h, "limit": 120,
                           "seed": rng.randrange(10 ** 6),
                           "cost": sum(len(b["num"]) for b in boards)})
        kinds = [("find", k) for k in range(len(ORDER))] + [
            (k, 0) for k in ("bruteforce", "dlx", "conflicts", "hints")] * 3
        for k in range(300 if quick else 3000):
            result.append(crossing(rng, *kinds[k % len(kinds)]))
        return result

    def run(self, case):
        boards = richest(case) if case["kind"] == "crossing" else case["boards"]
        desk = Desk(boards, case["seed"])
        boards = desk.start[:]
        for o in case["ops"]:
            desk.do(o)
        return {"kind": "schedule", "boards": boards, "events": desk.events,
                "sizes": sorted(set((b["w"], b["h"]) for b in boards))}

    def measure(self, cases, records):
        count = {}
        for r in records:
            for e in r.get("events", []):
                count[e["op"]] = count.get(e["op"], 0) + 1
        return {"events": count}
