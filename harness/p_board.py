"""C02, C03: histories of operations on boards."""
import random

import gen
from core import (ODD, Property, attempt, changes, cset, histories, num, pos,
                  rc, snap)

READS = ["empty", "filled", "iter", "count", "len", "shape", "get", "getcand", "outside"]
ACCESSES = ["get", "set", "getcand", "setcand", "remcand"]
ODDITIES = ["None", "int", "text", "list", "tuple", "dict", "object", "rows"]
COMPARES = ["eq", "ne", "diff", "equals"]


def random_history(rng, length, shapes, copies, boards=4):
    """A history in the format of the specification."""
    ops = []
    heap = []       # (w, h) of each board

    def new():
        w, h = rng.choice(shapes)
        heap.append((w, h))
        ops.append({"op": "new", "w": w, "h": h})
    new()
    focus = {}
    while len(ops) < length:
        roll = rng.random()
        b = rng.randrange(len(heap)) + 1
        w, h = heap[b - 1]
        n = w * h
        # a few fields are written again and again
        if b not in focus:
            focus[b] = [rng.randint(1, n * n) for _ in range(4)]
        p = rng.choice(focus[b]) if rng.random() < 0.5 else rng.randint(1, n * n)
        some = sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 4))))
        if roll < 0.04 and len(heap) < boards:
            new()
        elif roll < 0.12 and copies and len(heap) < boards:
            heap.append((w, h))
            ops.append({"op": "copy", "b": b, "c": rng.random() < 0.6})
        elif roll < 0.35:
            ops.append({"op": "set", "b": b, "p": p, "v": rng.choice([0, rng.randint(1, n)])})
        elif roll < 0.55:
            ops.append({"op": "setcand", "b": b, "p": p, "s": some})
        elif roll < 0.65:
            ops.append({"op": "remcand", "b": b, "p": p, "s": some})
        elif roll < 0.7:
            c = rng.randrange(len(heap)) + 1
            k = heap[c - 1][0] * heap[c - 1][1]
            ops.append({"op": "movecand", "b": b, "p": p, "b2": c,
                        "p2": rng.randint(1, k * k)})
        else:
            o = rng.choice(READS + (COMPARES * 2 if copies else []))
            e = {"op": o, "b": b}
            if o in ("get", "getcand"):
                e["p"] = p
            if o == "outside":
                e["r"] = rng.choice([0, n - 1, n, n + 1, n * n, rng.randrange(n)])
                e["c"] = rng.choice([n, n, n + 1, n * n] + [0] * (2 * (e["r"] >= n)))
                if rng.random() < 0.3:
                    e["r"], e["c"] = e["c"], e["r"]
                e["how"] = rng.choice(ACCESSES)
            if o in COMPARES:
                e["b2"] = rng.randrange(len(heap)) + 1
                w2, h2 = heap[e["b2"] - 1]
                if o in ("diff", "equals") and w2 * h2 != n:
                    e["b2"] = b
            if o == "equals":
                e["c"] = rng.random() < 0.6
            ops.append(e)
    return ops


def pair_history(rng, w, h):
    """Two boards which differ in almost nothing, compared in every way."""
    n = w * h
    ops = [{"op": "new", "w": w, "h": h}]
    fields = list(range(1, n * n + 1))

    def some():
        return sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 3))))
    part = rng.choice([0.2, 0.6, 1])
    for p in fields:
        if n <= 4 or rng.random() < 0.6:
            if rng.random() < part:
                ops.append({"op": "set", "b": 1, "p": p, "v": rng.randint(1, n)})
            if rng.random() < 0.5:
                ops.append({"op": "setcand", "b": 1, "p": p, "s": some()})
    ops.append({"op": "copy", "b": 1, "c": rng.random() < 0.8})
    filled = sorted(set(e["p"] for e in ops if e["op"] == "set"))
    changes = rng.choice([0, 1, 1, 1, 2])
    if filled and n > 1 and rng.random() < 0.35:
        # the same numbers (or candidates) at other places of a unit
        at = {}
        for e in ops:
            if e["op"] in ("set", "setcand"):
                at[e["op"], e["p"]] = e
        p = rng.choice(filled)
        r, c = (p - 1) // n, (p - 1) % n
        q = rng.choice([r * n + x + 1 for x in range(n)] +
                       [x * n + c + 1 for x in range(n)] + filled)
        b = rng.choice([1, 2])
        v, x = at["set", p]["v"], at.get(("set", q), {"v": 0})["v"]
        ops += [{"op": "set", "b": b, "p": p, "v": x}, {"op": "set", "b": b, "p": q, "v": v}]
        if rng.random() < 0.5:
            s, y = [at.get(("setcand", z), {"s": []})["s"] for z in (p, q)]
            ops += [{"op": "setcand", "b": b, "p": p, "s": y},
                    {"op": "setcand", "b": b, "p": q, "s": s}]
        changes = 0
    for _ in range(changes):
        b = rng.choice([1, 2])
        p = rng.choice(rng.choice([filled or fields, fields, [1], [n * n]]))
        kind = rng.random()
        if kind < 0.4:
            ops.append({"op": "set", "b": b, "p": p, "v": rng.randint(0, n)})
        elif kind < 0.7:
            ops.append({"op": "setcand", "b": b, "p": p, "s": some()})
        else:
            ops.append({"op": "remcand", "b": b, "p": p,
                        "s": list(range(1, rng.randint(1, n) + 1))})
    if rng.random() < 0.2:
        ops.append({"op": "new", "w": h, "h": w})
    for b in (1, 2):
        for o in COMPARES:
            e = {"op": o, "b": b, "b2": 3 - b}
            if o == "equals":
                ops.append(dict(e, c=False))
                e["c"] = True
            ops.append(e)
    for b in (1, 2):
        ops.append({"op": "eqodd", "b": b, "neg": rng.random() < 0.3,
                    "what": rng.choice(ODDITIES)})
        # the fields of this board, of the other one or nearly so
        ops.append({"op": "eqmap", "b": b, "like": rng.choice([b, b, 3 - b]),
                    "off": rng.choice([0, 0, 1, n * n, rng.randint(1, n * n)]),
                    "lack": rng.random() < 0.4, "neg": rng.random() < 0.3})
    ops.append({"op": rng.choice(["eq", "ne"]), "b": 2, "b2": len(
        [e for e in ops if e["op"] in ("new", "copy")])})
    return ops


def bit(x):
    return 1 if x is True else 0 if x is False else ODD


class Machine(object):
    """Runs a history on real boards."""
    def __init__(self, seed):
        self.heap = []
        self.seen = []
        self.rng = random.Random(seed)
        self.shared = set()

    def container(self, values):
        """The candidates as some iterable."""
        k = self.rng.randrange(7)
        if k == 0:
            return frozenset(values)
        if k == 1:
            return list(values) + list(values[:1])
        if k == 2:
            return tuple(reversed(values))
        if k == 3:
            return (v for v in values)
        if k == 4:
            return dict((v, None) for v in values)
        if k == 5:
            self.shared.clear()
            self.shared.update(values)
            return self.shared
        return set(values)

    def spoil(self, box):
        """Change a container the board must not depend on any more."""
        for name in ("add", "append"):
            if hasattr(box, name):
                try:
                    getattr(box, name)(77)
                except Exception:
                    pass
        if isinstance(box, dict):
            box[78] = None

    def do(self, e):
        from sudokutools.sudoku import Sudoku
        b = self.heap[e["b"] - 1] if "b" in e else None
        n = b.box_width * b.box_height if b is not None else 0
        style = self.rng.randrange(3)
        op = e["op"]
        if op == "new":
            if style == 0 and (e["w"], e["h"]) == (3, 3):
                s = Sudoku()
            elif style == 1:
                s = Sudoku((e["w"], e["h"]))
            else:
                s = Sudoku(box_size=[e["w"], e["h"]])
            self.heap.append(s)
            return []
        if op == "copy":
            if style == 0:
                s = b.copy(e["c"])
            elif style == 1 and not e["c"]:
                s = b.copy()
            else:
                s = b.copy(include_candidates=e["c"])
            self.heap.append(s)
            return []
        if "p" in e:
            r, c = rc(e["p"], n)
        other = self.heap[e["b2"] - 1] if "b2" in e else None
        if op == "set":
            if style == 0:
                b[r, c] = e["v"]
            elif style == 1:
                b.set_number(r, c, e["v"])
            else:
                b[(r, c)] = e["v"]
        elif op == "setcand":
            box = self.container(e["s"])
            b.set_candidates(r, c, box)
            self.spoil(box)
        elif op == "remcand":
            box = self.container(e["s"])
            b.remove_candidates(r, c, box)
            self.spoil(box)
        elif op == "movecand":
            r2, c2 = rc(e["p2"], other.box_width * other.box_height)
            other.set_candidates(r2, c2, b.get_candidates(r, c))
        elif op == "get":
            return [num(b[r, c] if style else b.get_number(r, c))]
        elif op == "getcand":
            got = b.get_candidates(r, c)
            result = cset(got)
            self.spoil(got)
            return result
        elif op in ("empty", "filled"):
            return [pos(x, n) for x in getattr(b, op)()]
        elif op == "iter":
            return [pos(x, n) for x in b]
        elif op == "count":
            return [num(b.count())]
        elif op == "len":
            return [num(len(b))]
        elif op == "shape":
            return [num(x) for x in (b.box_width, b.box_height) + tuple(b.box_size)
                    + tuple(b.indices) + tuple(b.numbers)]
        elif op == "outside":
            return [bit(self.refused(b, e["how"], e["r"], e["c"], style))]
        elif op == "eq":
            return [bit(b == other)]
        elif op == "ne":
            return [bit(b != other)]
        elif op == "eqmap":
            like = dict(self.numbers(e["like"]))
            p = e["off"]
            if p:
                if e["lack"]:
                    del like[rc(p, n)]
                else:
                    like[rc(p, n)] = (like[rc(p, n)] + 1) % (n + 1)
            return [bit(b != like if e["neg"] else b == like)]
        elif op == "eqodd":
            odd = {"None": None, "int": 5, "text": "1" * n * n, "list": [0] * n * n,
                   "tuple": (0,) * n, "dict": {}, "object": object(),
                   "rows": [[num(b[r, c]) for c in range(n)] for r in range(n)]}[e["what"]]
            return [bit(b != odd if e["neg"] else b == odd)]
        elif op == "diff":
            return [pos(x, n) for x in b.diff(other)]
        elif op == "equals":
            if style == 0 and not e["c"]:
                return [bit(b.equals(other))]
            return [bit(b.equals(other, e["c"]) if style else
                        b.equals(other, candidates=e["c"]))]
        return []

    def refused(self, b, how, r, c, style):
        """Is access to a field outside the board rejected?  (The number of
        the field with the documented error.)"""
        try:
            if how == "get":
                b[r, c] if style else b.get_number(r, c)
            elif how == "set":
                if style == 0:
                    b[r, c] = 1
                else:
                    b.set_number(r, c, 1)
            elif how == "getcand":
                b.get_candidates(r, c)
            elif how == "setcand":
                b.set_candidates(r, c, {1})
            else:
                b.remove_candidates(r, c, {1})
        except IndexError:
            return True
        except Exception:
            return how not in ("get", "set")
        return False

    def numbers(self, b):
        s = self.seen[b - 1]
        n = s["w"] * s["h"]
        return [(rc(p, n), s["num"][p - 1]) for p in range(1, n * n + 1)]

    def step(self, e):
        out = dict(e)
        before = len(self.heap)
        err, res = attempt(self.do, e)
        out["err"] = err
        out["res"] = res if res is not None else []
        chg = []
        now = [snap(s) for s in self.heap]
        for i, s in enumerate(self.seen):
            for p, v, c in changes(s, now[i]):
                chg.append({"b": i + 1, "p": p, "v": v, "c": c})
        out["chg"] = chg
        if len(self.heap) > before:
            out["made"] = now[-1]
        elif e["op"] in ("new", "copy"):
            out["made"] = {"w": 1, "h": 1, "num": [ODD], "cand": [[ODD]]}
            out["err"] = "nothing made"
        self.seen = now
        return out


class Histories(Property):
    twins = 0.2
    judge = "JudgeHeap"
    copies = False
    gen_cfg = "GenBoard.cfg"
    assumptions = [
        "TLC and the specification Board.tla are trusted, and so are the public "
        "reads used to observe the boards (compared with each other).",
        "Numbers are integers between 0 and the number of rows."]

    def models(self, tier):
        return [("MCBoard", "MCBoard.cfg", {})]

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        made, _ = histories("MCBoard", self.gen_cfg, 200 if quick else 3000, 40, seed)
        for h in made:
            result.append({"kind": "spec behaviour", "ops": h,
                           "seed": rng.randrange(10 ** 6)})
        plan = [(60, gen.SMALL, 40), (30, gen.MIDDLE, 50), (12, gen.NORMAL, 60),
                (10, gen.MIDDLE + gen.NORMAL + [(2, 2)], 60), (6, gen.LARGE, 40)]
        for count, shapes, length in plan:
            for _ in range(count if quick else count * 10):
                result.append({"kind": "random history", "cost": length * shapes[0][0],
                               "ops": random_history(rng, length, shapes, self.copies),
                               "seed": rng.randrange(10 ** 6)})
        if self.copies:
            for w, h in gen.SMALL * 4 + gen.MIDDLE * 3 + gen.NORMAL * 6:
                for _ in range(1 if quick else 10):
                    result.append({"kind": "near pair", "cost": w * h * 20,
                                   "ops": pair_history(rng, w, h),
                                   "seed": rng.randrange(10 ** 6)})
        return result

    def run(self, case):
        m = Machine(case["seed"])
        sizes = sorted(set((e["w"], e["h"]) for e in case["ops"] if e["op"] == "new"))
        ops = []
        for e in case["ops"]:
            ops.append(m.step(e))
            if ops[-1]["err"] != "ok":
                break
        return {"kind": "heap", "sizes": [list(s) for s in sizes], "ops": ops}

    def measure(self, cases, records):
        count = {}
        for c in cases:
            for e in c["ops"]:
                count[e["op"]] = count.get(e["op"], 0) + 1
        return {"operations": count}


class C02(Histories):
    id = "C02"


class C03(Histories):
    id = "C03"
    copies = True
    gen_cfg = "GenCopies.cfg"
