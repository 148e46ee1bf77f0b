"""C07, C08, C09: candidates, solvers, verdicts."""
import itertools

import gen
from core import ODD, Property, attempt, build, cset, num, pos, rc, snap
from p_board import bit
from p_text import some_board

ASSUMED = ["TLC and the specification (Rules.tla, Search.tla) are trusted.",
           "Numbers are integers from 0 to the number of rows."]


def plan(tier, spread):
    """[(shape, cases)] from four weights: small, middle, normal, large."""
    k = 1 if tier == "quick" else 10
    return [(s, c * k) for group, c in zip(
        (gen.SMALL, gen.MIDDLE, gen.NORMAL, gen.LARGE), spread) for s in group if c]


class C07(Property):
    twins = 0.2
    id = "C07"
    judge = "JudgeRules"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCSearch", "MCSearch.cfg" if tier != "quick" else "QSearch.cfg", {})]

    def cases(self, rng, tier, seed):
        result = []
        for (w, h), k in plan(tier, (12, 12, 40, 4)):
            for _ in range(k):
                b = some_board(rng, w, h)
                result.append({"kind": "calc", "b": b, "style": rng.randrange(2),
                               "cost": len(b["num"])})
        return result

    def run(self, case):
        from sudokutools.solve import calc_candidates, init_candidates
        b = case["b"]
        n = b["w"] * b["h"]
        s = build(b)
        calc, errors = [], []
        for p in range(1, n * n + 1):
            r, c = rc(p, n)
            e, got = attempt(calc_candidates, s, r, c)
            errors.append(e)
            calc.append(cset(got) if e == "ok" else [ODD])
            try:
                got.clear()
            except Exception:
                pass
        after = snap(s)
        one, two = build(b), build(b)
        if case["style"]:
            errors.append(attempt(init_candidates, one)[0])
            errors.append(attempt(init_candidates, two, True)[0])
        else:
            errors.append(attempt(init_candidates, one, filled_only=False)[0])
            errors.append(attempt(init_candidates, two, filled_only=True)[0])
        from sudokutools.solvers import CalculateCandidates
        three = build(b)
        errors.append(attempt(CalculateCandidates.apply_all, three)[0])
        err = [e for e in errors if e != "ok"]
        return {"kind": "calc", "missing": snap(three), "w": b["w"], "h": b["h"], "b": b,
                "err": err[0] if err else "ok", "calc": calc, "after": after,
                "all": snap(one), "filled": snap(two)}


def puzzle_cases(rng, tier, spread, cap):
    """Boards of all kinds together with up to cap + 1 of their solutions."""
    result = []
    for (w, h), k in plan(tier, spread):
        n = w * h
        g = gen.Geo(w, h)
        made = 0
        tries = 0
        while made < k and tries < 20 * k:
            tries += 1
            kind = rng.choice(["unique", "unique+1", "ambiguous", "ambiguous",
                               "sparse", "wrong", "conflict", "full", "broken full",
                               "broken full", "box conflict", "empty"])
            if kind in ("unique", "unique+1"):
                board, sol = gen.unique_puzzle(w, h, rng, None if n <= 9 else 60)
                if kind == "unique+1":
                    # one number less than needed
                    i = rng.choice([i for i, v in enumerate(board) if v] or [0])
                    board[i] = 0
            elif kind == "ambiguous":
                full = gen.grid(w, h, rng)
                part = rng.uniform(0.25, 0.8) if n > 6 else rng.random()
                board = [v if rng.random() < part else 0 for v in full]
            elif kind == "sparse":
                full = gen.grid(w, h, rng)
                board = [v if rng.random() < 0.12 else 0 for v in full]
            elif kind == "wrong":
                # one number changed to another without a conflict
                board, sol = gen.unique_puzzle(w, h, rng, None if n <= 9 else 60)
                filled = [i for i, v in enumerate(board) if v]
                if not filled:
                    continue
                i = rng.choice(filled)
                options = [v for v in range(1, n + 1) if v != board[i]
                           and all(board[j] != v for j in g.peers[i])]
                if not options:
                    continue
                board[i] = rng.choice(options)
            elif kind == "conflict":
                board = gen.mask(gen.grid(w, h, rng),
                                 set(rng.sample(range(n * n), rng.randint(1, n * n))))
                i = rng.choice([i for i, v in enumerate(board) if v])
                if not g.peers[i]:
                    continue
                board[rng.choice(g.peers[i])] = board[i]
            elif kind == "full":
                board = gen.grid(w, h, rng)
            elif kind == "broken full":
                if n == 1:
                    continue
                board = gen.broken_full(w, h, rng)
            elif kind == "box conflict":
                # neither in a row nor in a column
                board = gen.mask(gen.grid(w, h, rng),
                                 set(rng.sample(range(n * n), rng.randint(0, n * n // 3))))
                box = rng.choice(g.units[2 * n:])
                pairs = [(i, j) for i in box for j in box
                         if g.row[i] != g.row[j] and g.col[i] != g.col[j]]
                if not pairs:
                    continue
                i, j = rng.choice(pairs)
                v = rng.randint(1, n)
                board = [0 if x == v else x for x in board]
                board[i] = board[j] = v
            else:
                board = [0] * (n * n)
            limit = cap if n <= 4 else min(cap, 60)
            known = gen.solutions(w, h, board, limit + 1, None, 30000)
            if known is None:
                continue
            # larger boards: many solutions only cost time
            if n > 9 and len(known) > limit:
                known = known[:limit + 1]
            made += 1
            cand = rng.choice(["none", "calc", "random"])
            cands = {"none": [[] for _ in board],
                     "calc": gen.calc(w, h, board),
                     "random": gen.random_cands(w, h, rng)}[cand]
            result.append({"kind": kind, "b": {"w": w, "h": h, "num": board,
                                               "cand": cands},
                           "known": known, "cap": limit,
                           "style": rng.randrange(3), "cost": n * n * (1 + len(known)),
                           "limit": 120})
    return result


def scramble(s):
    n = s.box_width * s.box_height
    for r in range(n):
        for c in range(n):
            s[r, c] = (r + c) % n + 1 if (r + c) % 3 else 0
            s.set_candidates(r, c, {1})


def many_cases(rng, count):
    """Boards with more than a thousand solutions."""
    result = []
    while len(result) < count:
        w, h = rng.choice([(2, 3), (3, 2)])
        board = gen.grid(w, h, rng)
        filled = list(range((w * h) ** 2))
        rng.shuffle(filled)
        while True:
            board[filled.pop()] = 0
            known = gen.solutions(w, h, board, 2000)
            if len(known) > 1050:
                break
        if len(known) < 1900:
            result.append({"kind": "many", "cap": 2000, "style": 0, "cost": 10 ** 5,
                           "limit": 240, "known": known,
                           "b": {"w": w, "h": h, "num": board, "cand": [[] for _ in board]}})
    return result


class C08(Property):
    twins = 0.2
    id = "C08"
    judge = "JudgeSearch"
    assumptions = ASSUMED + [
        "Boards with more solutions than the cap of the case are followed up to "
        "the cap only; completeness is judged on the others."]

    def models(self, tier):
        if tier == "quick":
            return [("MCSearch", "QSearch.cfg", {}), ("MCCover", "MCCover.cfg", {})]
        return [("MCSearch", "MCSearch.cfg", {}), ("MCCover", "WCover.cfg", {}),
                ("MCCover", "BCover.cfg", {}), ("MCCover", "WBoardCover.cfg", {})]

    def cases(self, rng, tier, seed):
        return puzzle_cases(rng, tier, (12, 14, 50, 3), 300) + many_cases(
            rng, 2 if tier == "quick" else 8)

    def run(self, case):
        from sudokutools.solve import bruteforce, dlx
        b = case["b"]
        s = build(b)
        lists = []
        runs = [("bruteforce", bruteforce), ("dlx", dlx)]
        if case["style"] == 2:
            runs = runs * 2
        gens = []
        for name, f in runs:
            x = {"name": name, "err": "ok", "got": [], "again": [], "shapes": [],
                 "capped": False}
            lists.append(x)
            gens.append([x, iter(f(s)), []])
        # style 2: all of them at the same time, otherwise one after the other
        order = gens if case["style"] == 2 else None
        active = list(gens)
        while active:
            for item in list(active if order else active[:1]):
                x, it, boards = item
                if len(x["got"]) >= case["cap"]:
                    x["capped"] = True
                    active.remove(item)
                    continue
                try:
                    y = next(it)
                except StopIteration:
                    active.remove(item)
                    continue
                except Exception as e:
                    x["err"] = type(e).__name__
                    active.remove(item)
                    continue
                x["got"].append(snap(y)["num"])
                x["shapes"].append([num(y.box_width), num(y.box_height)])
                if case["style"] == 1:
                    scramble(y)
                    x["again"].append(x["got"][-1])
                else:
                    boards.append(y)
        after = snap(s)
        if case["style"] != 1:
            scramble(s)
            for x, it, boards in gens:
                x["again"] = [snap(y)["num"] for y in boards]
        return {"kind": "solutions", "w": b["w"], "h": b["h"], "b": b,
                "known": case["known"], "lists": lists, "after": after}

    def complete(self, cases, records):
        for r in records:
            if not r["fault"]:
                r["known"] = r["known"][:20]

    def measure(self, cases, records):
        good = [r for r in records if not r["fault"]]
        return {"solutions yielded": sum(len(x["got"]) for r in good for x in r["lists"]),
                "lists cut off": sum(x["capped"] for r in good for x in r["lists"])}


class C09(Property):
    twins = 0.2
    id = "C09"
    assumptions = ASSUMED
    judge = ("JudgeRules", "JudgeSearch")

    def models(self, tier):
        return [("MCSearch", "MCSearch.cfg" if tier != "quick" else "QSearch.cfg", {})]

    def cases(self, rng, tier, seed):
        result = []
        for (w, h), k in plan(tier, (18, 16, 50, 4)):
            n = w * h
            for _ in range(k):
                kind = rng.randrange(6)
                if kind > 3:
                    board = gen.broken_full(w, h, rng)
                elif kind == 0:
                    board = gen.grid(w, h, rng)
                    for _ in range(rng.randint(0, 2)):
                        board[rng.randrange(n * n)] = rng.randint(0, n)
                elif kind == 1:
                    board = gen.grid(w, h, rng)
                    board = [v if rng.random() < 0.7 else 0 for v in board]
                    board[rng.randrange(n * n)] = rng.randint(1, n)
                else:
                    board = gen.noise(w, h, rng, rng.random())
                calls = [[]]
                for size in (1, 2, rng.randint(1, n * n)):
                    if size <= n * n:
                        calls.append(rng.sample(range(1, n * n + 1), size))
                result.append({"kind": "conflicts", "calls": calls,
                               "b": {"w": w, "h": h, "num": board,
                                     "cand": gen.random_cands(w, h, rng)}})
        for c in puzzle_cases(rng, tier, (8, 8, 40, 4), 2):
            c["what"] = c["kind"]
            c["kind"] = "unique"
            c["known"] = c["known"][:2]
            result.append(c)
        return result

    def run(self, case):
        from sudokutools.analyze import find_conflicts, is_solved, is_unique
        b = case["b"]
        n = b["w"] * b["h"]
        s = build(b)
        if case["kind"] == "unique":
            e, got = attempt(is_unique, s)
            return {"judge": "JudgeSearch", "kind": "unique", "w": b["w"],
                    "h": b["h"], "b": b, "known": case["known"], "err": e,
                    "unique": bit(got), "after": snap(s)}
        calls = []
        for coords in case["calls"]:
            e, got = attempt(lambda: list(find_conflicts(s, *[rc(p, n) for p in coords])))
            triples = []
            for x in got or []:
                try:
                    triples.append([pos(x[0], n), pos(x[1], n), num(x[2])])
                except (TypeError, IndexError):
                    triples.append([0, 0, ODD])
            calls.append({"coords": coords, "err": e, "got": triples})
        e, solved = attempt(is_solved, s)
        return {"judge": "JudgeRules", "kind": "conflicts", "w": b["w"], "h": b["h"],
                "b": b, "calls": calls, "solved": bit(solved), "after": snap(s)}
