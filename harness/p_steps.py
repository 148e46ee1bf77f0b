"""C10, C11, C12, C15: the steps of the solving techniques."""
import random

import gen
from core import (ODD, Property, attempt, build, changes, chars, cset, num, pos,
                  rc, snap)

ORDER = ["CalculateCandidates", "NakedSingle", "HiddenSingle", "NakedPair",
         "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad",
         "NakedQuint", "HiddenQuint", "PointingPair", "PointingTriple", "XWing",
         "Swordfish", "Jellyfish"]
ALL = ORDER + ["Bruteforce"]
DEGREE = {"Pair": 2, "XWing": 2, "Triple": 3, "Swordfish": 3, "Quad": 4,
          "Jellyfish": 4, "Quint": 5}
ASSUMED = ["TLC and the specification Techniques.tla are trusted.",
           "The candidates of a filled field contain its number (or there are none yet)."]


def degree(t):
    for k, v in DEGREE.items():
        if t.endswith(k):
            return v
    return 1


def inject(rng, w, h, board, cand, sols, t):
    """Shape the candidates towards a pattern of technique t, keeping sols."""
    g = gen.Geo(w, h)
    n = g.n
    keep = [set(s[i] for s in sols) for i in range(n * n)]
    k = degree(t)
    cand = [set(c) for c in cand]

    def remove(i, values):
        if not board[i]:
            cand[i] -= set(values) - keep[i]

    empty = [i for i in range(n * n) if not board[i]]
    if not empty:
        return [sorted(c) for c in cand]
    unit = rng.choice([u for u in g.units if any(not board[i] for i in u)])
    free = [i for i in unit if not board[i]]
    if t.startswith("Naked"):
        fields = rng.sample(free, min(k, len(free)))
        allowed = set().union(*[keep[i] for i in fields]) if sols else set()
        more = [v for v in range(1, n + 1) if v not in allowed]
        rng.shuffle(more)
        allowed |= set(more[:max(0, k - len(allowed))])
        for i in fields:
            remove(i, set(range(1, n + 1)) - allowed)
            if rng.random() < 0.5:
                cand[i] |= set(rng.sample(sorted(allowed), min(2, len(allowed))))
    elif t.startswith("Hidden"):
        fields = set(rng.sample(free, min(k, len(free))))
        values = set().union(*[keep[i] for i in fields]) if sols else \
            set(rng.sample(range(1, n + 1), min(k, n)))
        for i in unit:
            if i not in fields:
                remove(i, values)
        for i in fields:
            # a field of the pattern may still have other candidates, or not
            # all of the pattern
            if rng.random() < 0.6:
                cand[i] |= set(v for v in values if rng.random() < 0.8)
    elif t.startswith("Pointing"):
        box = rng.choice(g.units[2 * n:])
        line = rng.choice(g.units[:2 * n])
        both = [i for i in box if i in line]
        v = rng.randint(1, n)
        a, b = (box, line) if rng.random() < 0.5 else (line, box)
        for i in a:
            if i not in both:
                remove(i, {v})
        chosen = rng.sample(both, min(k, len(both)))
        for i in both:
            if board[i]:
                continue
            if i in chosen:
                if not sols or rng.random() < 0.7:
                    cand[i].add(v)
            elif not sols or v not in keep[i]:
                cand[i].discard(v)
        for i in b:
            if i not in both and not board[i] and rng.random() < 0.5:
                cand[i].add(v)
    elif k > 1:
        v = rng.randint(1, n)
        axis = rng.random() < 0.5
        base = g.units[:n] if axis else g.units[n:2 * n]
        other = g.col if axis else g.row
        lines = rng.sample(range(n), min(k, n))
        crossing = set()
        if sols:
            for x in lines:
                crossing |= set(other[i] for i in base[x] if v in keep[i])
        rest = [c for c in range(n) if c not in crossing]
        rng.shuffle(rest)
        crossing |= set(rest[:max(0, k - len(crossing))])
        for x in lines:
            for i in base[x]:
                if other[i] in crossing:
                    if not board[i] and rng.random() < 0.85:
                        cand[i].add(v)
                else:
                    remove(i, {v})
    return [sorted(c) for c in cand]


def candidate_state(rng, w, h, solvable, technique=None, loose=0):
    """A board with candidates and (some of) the solutions it contains."""
    n = w * h
    if not solvable:
        sols = []
        kind = rng.randrange(3)
        if kind == 0:
            board = [0] * (n * n)
            cand = gen.random_cands(w, h, rng, rng.uniform(0.1, 0.6))
        else:
            full = gen.grid(w, h, rng)
            part = rng.uniform(0.1, 0.7)
            board = [v if rng.random() < part else 0 for v in full]
            cand = gen.calc(w, h, board)
            cut = rng.uniform(0, 0.6)
            cand = [c if board[i] else [v for v in c if rng.random() > cut]
                    for i, c in enumerate(cand)]
        rounds = rng.randint(0, 4)
    else:
        full = gen.grid(w, h, rng)
        part = rng.choice([rng.uniform(0.15, 0.6), rng.uniform(0.3, 0.5)])
        board = [v if rng.random() < part else 0 for v in full]
        some = gen.solutions(w, h, board, rng.choice([1, 2, 6]), rng, 5000) or []
        sols = [full] + [s for s in some if s != full]
        cand = gen.calc(w, h, board)
        if loose:
            # numbers set without updating the candidates around them
            seen = [v if rng.random() < 0.4 else 0 for v in board]
            wide = gen.calc(w, h, seen)
            cand = [cand[i] if board[i] else wide[i] for i in range(n * n)]
        cand = gen.thin(cand, board, sols, rng, rng.choice([0, 0.2, 0.5, 0.8, 0.95]))
        rounds = rng.randint(0, 3)
    for _ in range(rounds):
        t = technique or rng.choice(ORDER[1:])
        cand = inject(rng, w, h, board, cand, sols, t)
    if loose > 1 and solvable and rng.random() < 0.5:
        # other candidates left in filled fields
        cand = [sorted(set(c) | set(v for v in wide[i] if rng.random() < 0.3))
                if board[i] and rng.random() < 0.3 else c for i, c in enumerate(cand)]
    if not solvable and kind and rng.random() < 0.25:
        # anything left in filled fields
        cand = [[v for v in range(1, n + 1) if rng.random() < 0.4]
                if board[i] and rng.random() < 0.4 else c for i, c in enumerate(cand)]
    if solvable and rounds and not loose:
        calc = gen.calc(w, h, board)
        cand = [sorted(set(c) & set(calc[i])) for i, c in enumerate(cand)]
    return {"w": w, "h": h, "num": board, "cand": cand}, sols


def plan(rng, tier, spread):
    k = 1 if tier == "quick" else 12
    result = []
    for group, c in zip((gen.SMALL, gen.MIDDLE, gen.NORMAL, gen.LARGE), spread):
        for s in group:
            result += [s] * int(c * k)
    return result


def solver(name):
    from sudokutools import solvers
    return getattr(solvers, name)


def described(step, n):
    name = type(step).__name__
    return {"t": name if name in ALL else "?",
            "clues": [pos(x, n) for x in step.clues],
            "aff": [pos(x, n) for x in step.affected],
            "val": [num(x) for x in step.values]}


def found(s, name, n, cap=3000):
    out = {"t": name, "err": "ok", "steps": []}
    try:
        for step in solver(name).find(s):
            d = described(step, n)
            d["t"] = name
            out["steps"].append(d)
            if len(out["steps"]) >= cap:
                out["err"] = "endless"
                break
    except Exception as e:
        out["err"] = type(e).__name__
    return out


class Steps(Property):
    twins = 0.2
    judge = "JudgeSteps"
    assumptions = ASSUMED

    def models(self, tier):
        if tier == "quick":
            return [("MCTechniques", "QTechniques.cfg", {})]
        return [("MCTechniques", "MCTechniques.cfg", {"timeout": 2500}),
                ("MCTechniques", "STechniques.cfg", {"timeout": 1200})]

    def measure(self, cases, records):
        count = {}
        for r in records:
            for f in r.get("finds", []):
                count[f["t"]] = count.get(f["t"], 0) + len(f["steps"])
            for f in r.get("steps", []):
                count[f["t"]] = count.get(f["t"], 0) + 1
            for f in r.get("events", []):
                if f["what"] == "apply":
                    count[f["t"]] = count.get(f["t"], 0) + 1
            for f in r.get("techs", []):
                count[f["t"]] = count.get(f["t"], 0) + len(f["alone"])
        return {"steps judged": count}


class C11(Steps):
    id = "C11"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in plan(rng, tier, (6, 8, 10, 1)):
            b, _ = candidate_state(rng, w, h, rng.random() < 0.5,
                                   loose=int(rng.random() < 0.25))
            kind = rng.random()
            if kind < 0.15:
                # without candidates in some fields
                b["cand"] = [c if rng.random() < 0.6 else [] for c in b["cand"]]
            elif kind < 0.2:
                b["cand"] = [[] for c in b["cand"]]
            result.append({"kind": "find", "b": b, "cost": len(b["num"]) ** 2})
        # one pattern after the other
        for t in ORDER[1:]:
            shapes = [(3, 3)] * 5 + [(2, 2), (2, 3), (3, 2), (4, 2), (1, 4), (4, 1), (2, 4)]
            for w, h in shapes * (1 if tier == "quick" else 8):
                b, _ = candidate_state(rng, w, h, rng.random() < 0.5, t,
                                       int(rng.random() < 0.25))
                result.append({"kind": "find", "b": b, "only": [t],
                               "cost": len(b["num"]) ** 2})
        return result

    def run(self, case):
        b = case["b"]
        n = b["w"] * b["h"]
        s = build(b)
        finds = [found(s, t, n) for t in case.get("only", ORDER)]
        return {"kind": "find", "w": b["w"], "h": b["h"], "b": b, "finds": finds,
                "after": snap(s)}


class C12(Steps):
    id = "C12"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in plan(rng, tier, (6, 10, 30, 1)):
            b, _ = candidate_state(rng, w, h, rng.random() < 0.6)
            if rng.random() < 0.15:
                b["cand"] = [c if rng.random() < 0.6 else [] for c in b["cand"]]
            result.append({"kind": "apply", "b": b, "cost": len(b["num"]) ** 2,
                           "seed": rng.randrange(10 ** 6)})
        for t in ORDER[1:]:
            for w, h in [(3, 3), (3, 3), (2, 3), (4, 2)] * (1 if tier == "quick" else 12):
                b, _ = candidate_state(rng, w, h, rng.random() < 0.5, t,
                                       int(rng.random() < 0.25))
                result.append({"kind": "apply", "b": b, "only": [t],
                               "cost": len(b["num"]) ** 2,
                               "seed": rng.randrange(10 ** 6)})
        for case in result:
            b = case["b"]
            n = b["w"] * b["h"]
            # the same board later on, or with more candidates, and another
            # board of the same shape
            other, _ = candidate_state(rng, b["w"], b["h"], rng.random() < 0.3)
            part = rng.choice([0.3, 0.7])
            if rng.random() < 0.6:
                near = [[v for v in c if rng.random() < part] for c in b["cand"]]
            else:
                near = [sorted(set(c) | set(v for v in range(1, n + 1)
                                            if rng.random() < part)) for c in b["cand"]]
            case["others"] = [dict(b, cand=near), other]
        return result

    def run(self, case):
        b = case["b"]
        rng = random.Random(case["seed"])
        n = b["w"] * b["h"]
        boards = [snap(build(x)) for x in [b] + case["others"]]
        out, err = [], "ok"
        for t in case.get("only", ALL):
            s = build(b)
            try:
                steps = list(solver(t).find(s))
            except Exception as e:
                err = type(e).__name__
                continue
            if len(steps) > 12:
                steps = rng.sample(steps, 12)
            for step in steps:
                d = described(step, n)
                d["t"] = t
                d["on"] = []
                # the same step applied to several boards, in any order
                order = [0, 0] + list(range(1, len(boards)))
                rng.shuffle(order)
                for k in order:
                    target = build(boards[k])
                    e, _ = attempt(step.apply, target)
                    now = snap(target)
                    d["on"].append({"b": k + 1, "err": e, "chg": [
                        {"p": p, "v": v, "c": c} for p, v, c in changes(boards[k], now)]})
                out.append(d)
        return {"kind": "apply", "w": b["w"], "h": b["h"], "boards": boards,
                "steps": out, "err": err}


class C10(Steps):
    id = "C10"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in plan(rng, tier, (5, 8, 25, 1)):
            for kind in ("safe", "interleaved"):
                b, sols = candidate_state(rng, w, h, True,
                                          loose=rng.choice([0, 0, 1, 2]))
                if kind == "safe" and rng.random() < 0.2:
                    # candidates are only there as far as calculated
                    b["cand"] = [[] if not b["num"][i] else c
                                 for i, c in enumerate(b["cand"])]
                result.append({"kind": kind, "b": b, "sols": sols,
                               "cost": len(b["num"]) ** 2,
                               "seed": rng.randrange(10 ** 6)})
        for t in ORDER[1:]:
            for w, h in [(3, 3), (3, 3), (2, 3), (4, 2), (2, 2)] * (1 if tier == "quick" else 12):
                b, sols = candidate_state(rng, w, h, True, t,
                                          rng.choice([0, 0, 1, 2]))
                result.append({"kind": rng.choice(["safe", "interleaved"]), "b": b,
                               "sols": sols, "only": [t], "cost": len(b["num"]) ** 2,
                               "seed": rng.randrange(10 ** 6)})
        return result

    def run(self, case):
        b = case["b"]
        n = b["w"] * b["h"]
        base = snap(build(b))
        out = {"kind": case["kind"], "w": b["w"], "h": b["h"], "b": b,
               "sols": case["sols"]}
        blank = any(not c for c in b["cand"])
        names = case.get("only", ALL)
        if case["kind"] == "safe":
            if blank:
                names = ["CalculateCandidates", "Bruteforce"]
            out["techs"] = []
            for t in names:
                x = {"t": t, "err": "ok", "alone": [], "all": []}
                out["techs"].append(x)
                try:
                    if t != "Bruteforce":
                        for step in list(solver(t).find(build(b))):
                            s = build(b)
                            step.apply(s)
                            x["alone"].append(self.diff(base, snap(s)))
                    s = build(b)
                    solver(t).apply_all(s)
                    x["all"] = self.diff(base, snap(s))
                except Exception as e:
                    x["err"] = type(e).__name__
            return out
        out["events"] = self.interleave(case, build(b), base, n)
        return out

    def diff(self, a, b):
        return [{"p": p, "v": v, "c": c} for p, v, c in changes(a, b)]

    def interleave(self, case, s, now, n):
        rng = random.Random(case["seed"])
        names = [t for t in case.get("only", ORDER)]
        searches, pending, events = [], [], []
        for _ in range(120):
            roll = rng.random()
            if not searches or (roll < 0.1 and len(searches) < 4):
                t = rng.choice(names)
                searches.append((t, iter(solver(t).find(s))))
            elif roll < 0.75:
                i = rng.randrange(len(searches))
                t, it = searches[i]
                e = {"t": t, "what": "find", "err": "ok", "chg": []}
                try:
                    step = next(it)
                except StopIteration:
                    searches.pop(i)
                    step = None
                except Exception as x:
                    e["err"] = type(x).__name__
                    step = None
                after = snap(s)
                e["chg"] = self.diff(now, after)
                now = after
                if e["chg"] or e["err"] != "ok":
                    events.append(e)
                    break
                if step is not None:
                    pending.append((t, step))
            if pending and rng.random() < 0.6:
                i = rng.randrange(len(pending)) if rng.random() < 0.3 else -1
                t, step = pending.pop(i)
                e = {"t": t, "what": "apply"}
                e["err"], _ = attempt(step.apply, s)
                after = snap(s)
                e["chg"] = self.diff(now, after)
                now = after
                events.append(e)
        return events


class C15(Steps):
    id = "C15"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in plan(rng, tier, (6, 10, 40, 2)):
            b, _ = candidate_state(rng, w, h, rng.random() < 0.6,
                                   loose=2 * int(rng.random() < 0.3))
            kind = rng.random()
            if kind < 0.2:
                b["cand"] = [c if rng.random() < 0.6 else [] for c in b["cand"]]
            elif kind < 0.3:
                b["cand"] = [[] for c in b["cand"]]
            # a changed board asked again
            b2 = {"w": w, "h": h, "num": list(b["num"]),
                  "cand": [[v for v in c if rng.random() < 0.8] or c for c in b["cand"]]}
            result.append({"kind": "hints", "b": b, "next": b2,
                           "again": rng.random() < 0.5, "cost": len(b["num"]) ** 2})
        return result

    def run(self, case):
        from sudokutools.solvers import hints
        b = case["b"]
        n = b["w"] * b["h"]
        s = build(b)
        if case["again"]:
            # earlier hints for the board before it changed
            it = iter(hints(s))
            for _ in range(2):
                next(it, None)
            list(it)
            b = case["next"]
            for i, c in enumerate(b["cand"]):
                s.set_candidates(i // n, i % n, c)
        out, err = [], "ok"
        try:
            for step in hints(s):
                out.append(described(step, n))
                if len(out) > 20000:
                    err = "endless"
                    break
        except Exception as e:
            err = type(e).__name__
        after = snap(s)
        s = build(b)
        finds = [found(s, t, n) for t in ORDER]
        return {"kind": "hints", "w": b["w"], "h": b["h"], "b": b, "hints": out,
                "finds": finds, "err": err, "after": after}


SINGLES = ("NakedSingle", "HiddenSingle", "Bruteforce")
FUNCS = {"set_number": "number", "set_candidates": "candidates",
         "remove_candidates": "remove"}


class C30(Property):
    twins = 0.2
    id = "C30"
    judge = "JudgeValues"
    assumptions = ["Only steps of the same technique are compared with each other."]

    def models(self, tier):
        if tier == "quick":
            return [("MCValues", "MCValues.cfg", {})]
        return [("MCValues", "WValues.cfg", {"timeout": 2000})]

    def cases(self, rng, tier, seed):
        result = []
        k = 1 if tier == "quick" else 10
        # invented steps, many of them alike
        for t in ALL * 3 * k:
            w, h = rng.choice([(3, 3), (3, 3), (2, 2), (2, 3), (4, 3), (3, 4), (1, 5),
                               (5, 1), (4, 4)])
            n = w * h
            few = rng.sample(range(1, n * n + 1), min(n * n, rng.choice([3, 5, 30])))
            # positions which sort differently as numbers and as text
            if n > 9 and rng.random() < 0.7:
                few += [r * n + c + 1 for r in (1, 2, 9, 10) for c in (2, 10)
                        if r < n and c < n]
            few = sorted(set(few))
            vals = rng.sample(range(1, n + 1), min(n, rng.choice([2, 3, 9])))
            items = []
            for _ in range(14):
                if items and rng.random() < 0.35:
                    # the same step, listed in another order
                    old = rng.choice(items)
                    x = {f: list(old[f]) for f in ("clues", "aff", "val")}
                    if rng.random() < 0.5:
                        f = rng.choice(["clues", "aff", "val"])
                        if t not in SINGLES and rng.random() < 0.5 and len(x[f]) > 1:
                            x[f].pop()
                        elif t not in SINGLES:
                            x[f].append(rng.choice(vals if f == "val" else few))
                    for f in x:
                        x[f] = sorted(set(x[f]))
                        rng.shuffle(x[f])
                elif t in SINGLES:
                    p = rng.choice(few)
                    x = {"clues": [p], "aff": [p], "val": [rng.choice(vals)]}
                else:
                    x = {"clues": rng.sample(few, rng.randint(1, min(4, len(few)))),
                         "aff": rng.sample(few, rng.randint(1, min(4, len(few)))),
                         "val": rng.sample(vals, rng.randint(1, len(vals)))}
                    if rng.random() < 0.1:
                        x["val"] = []
                x["how"] = rng.choice(["list", "tuple", "set", "iter"])
                items.append(x)
            result.append({"kind": "order", "w": w, "h": h, "t": t, "items": items,
                           "seed": rng.randrange(10 ** 6)})
        # found steps
        for t in ALL * 2 * k:
            w, h = rng.choice([(3, 3), (3, 3), (2, 3), (4, 2), (4, 3)])
            b, _ = candidate_state(rng, w, h, rng.random() < 0.6, t)
            if t == "CalculateCandidates":
                b["cand"] = [c if rng.random() < 0.3 else [] for c in b["cand"]]
            result.append({"kind": "order", "w": w, "h": h, "t": t, "b": b,
                           "seed": rng.randrange(10 ** 6)})
        for t in ALL * 3 * k:
            w, h = rng.choice([(3, 3), (3, 3), (2, 2), (2, 3), (4, 2), (1, 4), (3, 4)])
            b, _ = candidate_state(rng, w, h, t == "Bruteforce" or rng.random() < 0.6, t)
            if t == "CalculateCandidates":
                b["cand"] = [c if rng.random() < 0.3 else [] for c in b["cand"]]
            result.append({"kind": "changes", "w": w, "h": h, "t": t, "b": b,
                           "seed": rng.randrange(10 ** 6)})
        return result

    def run(self, case):
        if case["kind"] == "order":
            return self.order(case)
        return self.single(case)

    def made(self, x, t, n):
        cls = solver(t)
        if t in SINGLES:
            r, c = rc(x["clues"][0], n)
            return cls(r, c, x["val"][0])
        lists = []
        for f in ("clues", "aff", "val"):
            q = [v if f == "val" else rc(v, n) for v in x[f]]
            lists.append({"list": list, "tuple": tuple, "set": set, "iter": iter}[x["how"]](q))
        if x["how"] == "set":
            return cls(affected=lists[1], values=lists[2], clues=lists[0])
        return cls(*lists)

    def order(self, case):
        import operator
        from sudokutools import solvers
        rng = random.Random(case["seed"])
        t, w, h = case["t"], case["w"], case["h"]
        n = w * h
        out = {"kind": "order", "w": w, "h": h, "t": t, "name": chars(t),
               "items": [], "rel": [], "sorted": []}
        steps = []
        if "b" in case:
            found_ones = list(solver(t).find(build(case["b"])))
            if len(found_ones) > 14:
                found_ones = rng.sample(found_ones, 14)
            todo = [(None, s) for s in found_ones]
        else:
            todo = [(x, None) for x in case["items"]]
        for x, step in todo:
            try:
                if step is None:
                    step = self.made(x, t, n)
                d = described(step, n)
                got = {f: d[f] for f in ("clues", "aff", "val")}
                given = got if x is None else {f: x[f] for f in got}
                item = dict(given, err="ok", got=got, text=chars(str(step)))
                back = {"ok": False, "t": "?", "step": {f: [] for f in got}, "same": False}
                try:
                    other = eval(repr(step), dict(vars(solvers)))
                    e = described(other, n)
                    back = {"ok": True, "t": e["t"], "step": {f: e[f] for f in got},
                            "same": bool(other == step and step == other)}
                except Exception:
                    pass
                item["back"] = back
                steps.append(step)
            except Exception as e:
                item = dict(clues=[], aff=[], val=[], err=type(e).__name__,
                            got={"clues": [], "aff": [], "val": []}, text=[],
                            back={"ok": False, "t": "?", "same": False,
                                  "step": {"clues": [], "aff": [], "val": []}})
                steps.append(None)
            out["items"].append(item)
        if not steps or any(s is None for s in steps):
            return out
        pairs = [(i, j) for i in range(len(steps)) for j in range(len(steps))]
        if len(pairs) > 120:
            pairs = rng.sample(pairs, 120)
        ops = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
        for i, j in pairs:
            try:
                got = [bool(op(steps[i], steps[j])) for op in ops]
            except Exception:
                got = []
            out["rel"].append({"i": i + 1, "j": j + 1, "got": got})
        for _ in range(3):
            idx = list(range(len(steps)))
            rng.shuffle(idx)
            mixed = [steps[i] for i in idx]
            try:
                back = sorted(mixed)
                out["sorted"].append([1 + [i for i in range(len(steps))
                                           if steps[i] is s][0] for s in back])
            except Exception:
                out["sorted"].append([])
        return out

    def single(self, case):
        rng = random.Random(case["seed"])
        b, t = case["b"], case["t"]
        n = case["w"] * case["h"]
        base = snap(build(b))
        out = {"kind": "changes", "w": case["w"], "h": case["h"], "b": b, "steps": []}
        steps = list(solver(t).find(build(b)))
        if len(steps) > 6:
            steps = rng.sample(steps, 6)

        def diff(s):
            return [{"p": p, "v": v, "c": c} for p, v, c in changes(base, snap(s))]
        for step in steps:
            x = {"t": t, "err": "ok", "acts": [], "each": [], "built": [], "whole": [],
                 "twice": []}
            out["steps"].append(x)
            try:
                s = build(b)
                if rng.random() < 0.5:
                    step.build_actions(s)
                    x["built"] = diff(s)
                step.apply(s)
                x["whole"] = diff(s)
                listed = list(step.actions)
                step.apply(s)
                x["twice"] = diff(s)
                s = build(b)
                for a in listed:
                    f = FUNCS.get(getattr(a.func, "__name__", "?"), "?")
                    v = [a.value] if isinstance(a.value, int) else sorted(a.value)
                    x["acts"].append({"f": f, "p": pos((a.row, a.col), n), "v": v})
                    a.func(s, a.row, a.col, a.value)
                    x["each"].append(diff(s))
            except Exception as e:
                x["err"] = type(e).__name__
        return out

    def measure(self, cases, records):
        return {"steps": sum(len(r.get("items", r.get("steps", []))) for r in records),
                "comparisons": sum(len(r.get("rel", [])) for r in records)}
