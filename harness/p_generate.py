"""C17, C18, C19: generated puzzles."""
import random

import gen
from core import Property, attempt, build, snap

ASSUMED = ["TLC and the specification (Generate.tla, Search.tla) are trusted.",
           "Random choices are seeded through the random module; if the code "
           "draws from elsewhere the cases are other ones."]
SYMS = ["none", "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"]
WRONG = ["rotate-45", "rotate", "mirror", "Rotate-180", "", "mirror-z", 90]
BLANK = {"w": 1, "h": 1, "num": [0], "cand": [[]]}


def orbit(sym, n, i):
    r, c, k = i // n, i % n, n - 1
    pairs = {"none": [(r, c)],
             "rotate-90": [(r, c), (k - c, r), (k - r, k - c), (c, k - r)],
             "rotate-180": [(r, c), (k - r, k - c)],
             "mirror-x": [(r, c), (k - r, c)],
             "mirror-y": [(r, c), (r, k - c)],
             "mirror-xy": [(r, c), (k - r, c), (r, k - c), (k - r, k - c)]}[sym]
    return sorted(set(a * n + b for a, b in pairs))


class Generated(Property):
    twins = 0.2
    judge = "JudgeGenerate"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCGenerate", "MCGenerate.cfg" if tier == "quick" else "WGenerate.cfg", {})]

    def generated(self, case, call):
        random.seed(case["seed"])
        e, got = attempt(call)
        rec = {"kind": case["kind"], "w": case["w"], "h": case["h"], "err": e,
               "sym": case.get("sym", "none"), "got": BLANK}
        if e == "ok":
            rec["got"] = snap(got)
        return rec

    def solve(self, rec, whole):
        """Add witnesses: solutions, and second solutions of emptied boards."""
        g = rec["got"]
        rec["known"], rec["seconds"] = [], []
        if rec["err"] != "ok" or g["w"] < 1 or g["h"] < 1 \
                or (g["w"], g["h"]) != (rec["w"], rec["h"]) \
                or not all(0 <= v <= g["w"] * g["h"] for v in g["num"]):
            return
        w, h = g["w"], g["h"]
        n = w * h
        s = gen.solutions(w, h, g["num"], 2, None, 300000)
        rec["known"] = s or []
        if not whole or len(rec["known"]) != 1:
            return
        sol = rec["known"][0]
        done = set()
        for i in range(n * n):
            if not g["num"][i] or i in done:
                continue
            o = orbit(rec["sym"], n, i)
            done.update(o)
            less = [0 if j in o else v for j, v in enumerate(g["num"])]
            for t in gen.solutions(w, h, less, 2, None, 300000) or []:
                if t != sol:
                    rec["seconds"].append({"p": i + 1, "num": t})
                    break

    def size_args(self, w, h, style):
        return {} if style and (w, h) == (3, 3) else {"box_size": (w, h)}


class C17(Generated):
    id = "C17"

    def cases(self, rng, tier, seed):
        k = 2 if tier == "quick" else 12
        result = []
        for w, h in gen.SMALL + gen.MIDDLE + gen.NORMAL * 6:
            for sym in SYMS:
                for _ in range(k):
                    result.append({"kind": "puzzle", "w": w, "h": h, "sym": sym,
                                   "least": rng.choice(["", "", 0, -1]),
                                   "style": rng.random() < 0.5})
            for _ in range(3 * k):
                result.append({"kind": "puzzle", "w": w, "h": h, "sym": rng.choice(SYMS),
                               "least": rng.randint(0, w * h * w * h), "style": False})
            for _ in range(3 * k):
                result.append({"kind": "grid", "w": w, "h": h,
                               "style": rng.random() < 0.5})
        for w, h in [(2, 5), (5, 2)] * (1 if tier == "quick" else 4):
            result.append({"kind": "puzzle", "w": w, "h": h, "sym": rng.choice(SYMS),
                           "least": "", "style": False})
        for w, h in gen.LARGE * k:
            result.append({"kind": "puzzle", "w": w, "h": h, "sym": rng.choice(SYMS),
                           "least": int((w * h) ** 2 * 0.7), "style": False})
            result.append({"kind": "grid", "w": w, "h": h, "style": False})
        for c in result:
            c["seed"] = rng.randrange(10 ** 6)
            c["cost"] = (c["w"] * c["h"]) ** 4
            c["limit"] = 240
        return result

    def run(self, case):
        from sudokutools.generate import create_solution, generate
        w, h = case["w"], case["h"]
        args = self.size_args(w, h, case["style"])
        if case["kind"] == "grid":
            rec = self.generated(case, lambda: create_solution(**args))
            rec["known"], rec["seconds"] = [], []
            return rec
        if case["sym"] != "none" or not case["style"]:
            args["symmetry"] = None if case["sym"] == "none" else case["sym"]
        if case["least"] != "":
            args["min_count"] = case["least"]
        rec = self.generated(case, lambda: generate(**args))
        rec["whole"] = case["least"] in ("", 0, -1)
        self.solve(rec, rec["whole"])
        return rec

    def measure(self, cases, records):
        return {"groups shown to be needed": sum(len(r.get("seconds", [])) for r in records)}


class C18(Generated):
    id = "C18"

    def cases(self, rng, tier, seed):
        k = 3 if tier == "quick" else 12
        result = []
        shapes = (gen.SMALL + gen.MIDDLE + gen.NORMAL * 5) * k
        for w, h in shapes:
            f = (w * h) ** 2
            for sym in SYMS:
                least = rng.choice([0, 1, f // 3, f // 2, int(f * 0.8), f - 1, f, f - 2,
                                    rng.randint(0, f), rng.randint(f // 3, f)])
                result.append({"w": w, "h": h, "sym": sym, "least": max(0, least)})
            result.append({"w": w, "h": h, "sym": rng.choice(SYMS), "least": f})
            result.append({"w": w, "h": h, "sym": rng.choice(SYMS),
                           "least": f + rng.choice([1, 2, 50])})
            result.append({"w": w, "h": h, "sym": rng.choice(WRONG),
                           "least": rng.randint(0, f + 1)})
        for w, h in gen.LARGE * k:
            f = (w * h) ** 2
            for least in (rng.randint(int(f * 0.65), f), f):
                result.append({"w": w, "h": h, "sym": rng.choice(SYMS), "least": least})
            result.append({"w": w, "h": h, "sym": rng.choice(SYMS), "least": f + 1})
        for c in result:
            c["kind"] = "sized"
            c["seed"] = rng.randrange(10 ** 6)
            c["style"] = rng.randrange(3)
            c["cost"] = (c["w"] * c["h"]) ** 4
            c["limit"] = 240
        return result

    def run(self, case):
        from sudokutools.generate import generate
        w, h = case["w"], case["h"]
        sym = None if case["sym"] == "none" else case["sym"]
        if case["style"] == 0:
            call = lambda: generate(case["least"], sym, (w, h))
        elif case["style"] == 1 and (w, h) == (3, 3):
            call = lambda: generate(min_count=case["least"], symmetry=sym)
        else:
            call = lambda: generate(box_size=(w, h), symmetry=sym, min_count=case["least"])
        rec = self.generated(case, call)
        rec["least"] = case["least"]
        rec["sym"] = str(case["sym"])
        rec["known"], rec["seconds"] = [], []
        return rec

    def measure(self, cases, records):
        return {"rejected requests": sum(r.get("err") == "ValueError" for r in records)}


class C19(Generated):
    id = "C19"

    def rare(self, rng, count):
        """Templates which few grids fit."""
        result = []
        for _ in range(count * 40):
            w, h = rng.choice([(2, 2), (2, 2), (1, 4), (2, 3)])
            f = (w * h) ** 2
            k = rng.randint(5, 7) if f == 16 else rng.randint(10, 13)
            gone = set(rng.sample(range(f), f - k))
            filled = [i not in gone for i in range(f)]
            fitting = 0
            for _ in range(60):
                s = gen.solutions(w, h, [v if x else 0 for v, x in zip(gen.grid(w, h, rng), filled)],
                                  2, None, 3000)
                fitting += s is not None and len(s) == 1
            if 1 <= fitting <= 5:
                result.append((w, h, filled))
                if len(result) == count:
                    break
        return result

    def cases(self, rng, tier, seed):
        k = 3 if tier == "quick" else 12
        result = []

        def add(w, h, filled, tries):
            n = w * h
            pick = rng.random()
            if pick < 0.5:
                board = [1 if f else 0 for f in filled]
            else:
                board = [rng.randint(1, n) if f else 0 for f in filled]
            fitting, tested = 0, 0
            if tries >= 100 and 0 < sum(filled) < n * n:
                tested = 20
                for _ in range(tested):
                    g = gen.grid(w, h, rng)
                    s = gen.solutions(w, h, [v if f else 0 for v, f in zip(g, filled)],
                                      2, None, 3000)
                    fitting += s is not None and len(s) == 1
            if fitting >= 4 and rng.random() < 0.3:
                tries = rng.choice([-1, -5])
            result.append({"kind": "template", "w": w, "h": h, "tries": tries,
                           "fitting": fitting, "tested": tested,
                           "style": rng.random() < 0.5 and tries == 100,
                           "seed": rng.randrange(10 ** 6),
                           "cost": (w * h) ** 3 * (1 + abs(tries) // 10), "limit": 240,
                           "b": {"w": w, "h": h, "num": board,
                                 "cand": gen.random_cands(w, h, rng)
                                 if rng.random() < 0.5 else [[] for _ in board]}})

        for w, h in (gen.SMALL + gen.MIDDLE + gen.NORMAL * 5) * k:
            n = w * h
            f = n * n
            # certain, impossible, in between
            for empty in (0, 1, 2, 3):
                if empty <= f:
                    gone = set(rng.sample(range(f), empty))
                    add(w, h, [i not in gone for i in range(f)],
                        rng.choice([1, 2, 100, 0, -1]))
            add(w, h, [False] * f, rng.choice([0, 1, 3]))
            if n <= 4:
                # many tries, all in vain
                few = set(rng.sample(range(f), rng.randint(0, max(0, n - 2))))
                add(w, h, [i in few for i in range(f)],
                    rng.choice([100, 150, 220, 300, 1000]))
            some = set(rng.sample(range(f), max(0, n - 2)))
            add(w, h, [i in some for i in range(f)], rng.choice([1, 4]))
            # dense, but with fields which may exchange their numbers
            if n > 3:
                for _ in range(2):
                    unit = [rng.sample(range(n), rng.randint(2, max(2, n // 2))),
                            rng.sample(range(n), 2)]
                    if rng.random() < 0.3:
                        unit = [range(n), unit[1]]
                    holes = set(a * n + b for a in unit[0] for b in unit[1])
                    if rng.random() < 0.5:
                        holes = set(i % n * n + i // n for i in holes)
                    add(w, h, [i not in holes for i in range(f)],
                        rng.choice([1, 2, 5, 30]))
            for _ in range(3):
                part = rng.uniform(0.5, 0.9)
                add(w, h, [rng.random() < part for i in range(f)],
                    rng.choice([0, 1, 3, 10, 100, 100]))
        for w, h, filled in self.rare(rng, 5 if tier == "quick" else 20):
            # seldom a puzzle, but not within thousands of tries
            for _ in range(6):
                add(w, h, filled, 5000)
                result[-1]["rare"] = True
        for w, h in gen.LARGE * k:
            f = (w * h) ** 2
            gone = set(rng.sample(range(f), 3))
            add(w, h, [i not in gone for i in range(f)], rng.choice([0, 1, 100]))
            part = rng.uniform(0.8, 0.95)
            add(w, h, [rng.random() < part for i in range(f)], 100)
        return result

    def run(self, case):
        from sudokutools.generate import generate_from_template
        s = build(case["b"])
        if case["style"]:
            call = lambda: generate_from_template(s)
        elif case["seed"] % 2:
            call = lambda: generate_from_template(s, case["tries"])
        else:
            call = lambda: generate_from_template(s, tries=case["tries"])
        # how often a single try succeeds, of 400
        single = 0
        if case.get("rare"):
            random.seed(case["seed"] + 1)
            for _ in range(400):
                single += attempt(generate_from_template, build(case["b"]), 1)[0] == "ok"
        rec = self.generated(case, call)
        rec["single"] = single
        for x in ("tries", "fitting", "tested", "b"):
            rec[x] = case[x]
        rec["after"] = snap(s)
        self.solve(rec, False)
        return rec

    def measure(self, cases, records):
        good = [r for r in records if "tries" in r]
        return {"puzzles made": sum(r["err"] == "ok" for r in good),
                "gave up": sum(r["err"] == "RuntimeError" for r in good),
                "had to succeed": sum(r["tries"] >= 100 and 2 * r["fitting"] >= r["tested"] > 0
                                      for r in good),
                "seldom fitting": sum(r["single"] >= 8 for r in good)}
