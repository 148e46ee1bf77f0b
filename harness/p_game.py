"""C26, C27: the game shell."""
import io
import random
import re
import sys

import gen
from core import Property, attempt, build, chars, histories, num

ASSUMED = [
    "TLC and the specification (Game.tla, Techniques.tla, Notation.tla, Search.tla) are trusted.",
    "The text of a hint is taken apart by the harness (technique, fields, numbers).",
    "Moves set numbers 1 to 9; puzzles are generated with a seeded random module."]
GARBAGE = ["foo", "r1c1", "r1c1=", "=5", "r1c1=x", "r0c1=5", "r10c1=5", "x1y2=3", "r1c1==5", "r1c1<5",
           "r1c1<>x", "-12", "-1x r1c1", "r1r2=5", "quit", "exit", "help", "undo1", "hintr1c1", "r1c1 5",
           "set r1c1 5", "5", "r=5", "c1=r5", "RemoveCandidates", "r1c1 = five", "check! r1c1", "<>", "-",
           "r1c1>5", "b1p0=3", "b1p10=3", "r1c1=5=", "Undo", "HINT", "r1c1=5;r1c2=6", "#", "1=r1c1"]


class Stop(BaseException):
    pass


def parse_board(text):
    """The last printed board: lines, numbers and candidates."""
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    view = lines[-11:]
    rest = lines[:-11]
    nums, cands = [], []
    for l in view:
        if set(l.strip()) <= set("-+"):
            continue
        for token in l.replace("|", " ").split():
            if token.startswith("*"):
                nums.append(0)
                cands.append(sorted(set(int(c) for c in token[1:] if c.isdigit())))
            elif token.isdigit():
                nums.append(int(token))
                cands.append([int(token)])
    return rest, view, nums, cands


def parse_hint(line):
    m = re.match(r"(\w+) at (.*): (.*)$", line)
    if not m:
        return []
    fields = [int(r) * 9 + int(c) + 1 for r, c in re.findall(r"\((\d+), (\d+)\)", m.group(2))]
    return [{"t": m.group(1), "clues": fields,
             "val": [int(v) for v in re.findall(r"\d+", m.group(3))]}]


def field_name(p, rng):
    r, c = (p - 1) // 9, (p - 1) % 9
    if rng.random() < 0.25:
        return "b%dp%d" % (r // 3 * 3 + c // 3 + 1, r % 3 * 3 + c % 3 + 1)
    if rng.random() < 0.15:
        return "c%dr%d" % (c + 1, r + 1)
    return "r%dc%d" % (r + 1, c + 1)


class Player(object):
    """Chooses the inputs, from a plan and what is on the screen."""
    def __init__(self, plan, seed):
        self.plan = plan
        self.rng = random.Random(seed)
        self.solution = None
        self.exhausted = 0
        self.made, self.undone = [], []

    def write(self, e, nums, cands):
        """The next input; "again" is a move which was just undone."""
        if e["k"] == "again" and self.undone:
            return self.undone.pop()
        if e["k"] == "again":
            e = dict(e, k="right")
        text = e["text"] if e["k"] == "text" else self.choose(e, nums, cands)
        if text.strip() == "undo":
            if self.made:
                self.undone.append(self.made.pop())
        elif "=" in text or "<>" in text or text.startswith("-"):
            self.made.append(text)
            self.undone = []
        return text

    def choose(self, e, nums, cands):
        rng = self.rng
        k, p, v = e["k"], e["p"], e["v"]
        empty = [i for i, x in enumerate(nums) if not x]
        sol = self.solution
        if k in ("right", "wrong") and not empty and rng.random() < 0.7:
            k = "wrong"
        if k == "right" and sol and empty:
            singles = [i for i in empty if len(cands[i]) == 1]
            i = rng.choice(singles if singles and v > 3 else empty)
            return "%s=%d" % (field_name(i + 1, rng), sol[i])
        if k == "wrong":
            if empty and v > 2:
                i = empty[p % len(empty)]
                if cands[i] and v > 6:
                    v = rng.choice(cands[i])
                return "%s=%d" % (field_name(i + 1, rng), v)
            if v == 1:
                # several fields at once
                return "r%dc%d%d=%d" % ((p - 1) // 9 + 1, p % 9 or 9, rng.randint(1, 9), v)
            return "%s = %d" % (field_name(p, rng), v)
        if k == "remove":
            i = empty[p % len(empty)] if empty and v > 2 else p - 1
            c = cands[i] if cands[i] else [v]
            if len(c) > 2 and v > 5:
                # leave a single one
                keep = sol[i] if sol and v > 6 else c[0]
                d = [x for x in c if x != keep]
            elif v == 3:
                return "r%d<>%d" % ((p - 1) // 9 + 1, v)
            else:
                d = sorted(set([v] + c[:1]))
            d = "".join(str(x) for x in d)
            if rng.random() < 0.3:
                return "-%s %s" % (d, field_name(i + 1, rng))
            return "%s%s<>%s" % (field_name(i + 1, rng), rng.choice(["", "", " "]), d)
        if k == "unknown":
            return rng.choice(GARBAGE)
        if k == "nothing":
            return rng.choice(["", " ", "\t"])
        if rng.random() < 0.1:
            return rng.choice([" ", ""]) + k + rng.choice([" ", " now", ""])
        return k


class Screen(object):
    """Standard input and output of a game."""
    def __init__(self, game, player, case):
        self.game = game
        self.player = player
        self.case = case
        self.text = io.StringIO()
        self.lines = []
        self.first = None
        self.pending = None
        self.repeat = 0

    def write(self, s):
        return self.text.write(s)

    def flush(self):
        pass

    def take(self):
        out = self.text.getvalue()
        self.text.seek(0)
        self.text.truncate()
        return out

    def rules(self):
        s = self.game.settings
        return {"remove": bool(s["autoremove"]), "fill": bool(s["autoset"])}

    def values(self):
        return [[chars(str(k)), chars(str(v))] for k, v in sorted(self.game.settings.items())]

    def screen(self):
        out = self.take()
        # the prompt ends no line
        out = out[:out.rfind("\n") + 1]
        return parse_board(out)

    def note(self):
        rest, view, nums, cands = self.screen()
        if self.first is None:
            self.first = {"begin": [chars(l) for l in rest],
                          "view": [chars(l) for l in view], "nums": nums, "cands": cands}
            if len(nums) == 81:
                s = gen.solutions(3, 3, nums, 1, None, 200000)
                self.player.solution = s[0] if s else None
        if self.pending is not None:
            self.pending.update({"out": [chars(l) for l in rest],
                                 "view": [chars(l) for l in view], "gone": "",
                                 "raw": "\n".join(rest)[:300], "hint": []})
            if self.pending["text"].split()[:1] == ["hint"] and len(rest) == 1:
                self.pending["hint"] = parse_hint(rest[0])
            self.lines.append(self.pending)
            self.pending = None
        return nums, cands

    def readline(self):
        nums, cands = self.note()
        plan = self.player.plan
        last = self.lines[-1] if self.lines else None
        if last and self.repeat and last["hint"]:
            # until there is none
            self.repeat -= 1
            text = "hint"
        else:
            self.repeat = 0
            if not plan:
                raise Stop()
            e = plan.pop(0)
            if e["k"] == "hints":
                self.repeat = 150
                text = "hint"
            elif e["k"] == "setting":
                self.game.settings[e["name"]] = e["value"]
                text = ""
            elif len(nums) != 81:
                text = "undo"
            else:
                text = self.player.write(e, nums, cands)
        self.pending = {"text": text, "line": chars(text), "rules": self.rules(),
                        "set": self.values() if text.split()[:1] == ["settings"] else []}
        return text + "\n"

    def end(self, how):
        if self.first is None:
            self.note()
        if self.pending is not None:
            self.pending.update({"out": [], "view": [], "gone": how, "hint": [], "raw": how})
            self.lines.append(self.pending)


def play(case):
    import sudokutools
    import sudokutools.shell as shell
    random.seed(case["seed"])
    game = shell.GameShell()
    for k, v in case["settings"].items():
        game.settings[k] = v
    player = Player([dict(e) for e in case["plan"]], case["seed"])
    screen = Screen(game, player, case)
    rules = screen.rules()
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = screen, screen
    how = "the game returned"
    try:
        game.run()
    except Stop:
        how = ""
    except Exception as e:
        how = "raised %s: %s" % (type(e).__name__, e)
    finally:
        sys.stdin, sys.stdout = old
    screen.end(how)
    first = screen.first
    from sudokutools.analyze import rate
    empty = {"w": 3, "h": 3, "num": [0] * 81}
    e, rating = attempt(rate, build(dict(empty, num=first["nums"])))\
        if len(first["nums"]) == 81 else ("no board", None)
    return {"kind": "game", "begin": first["begin"], "rate": num(rating),
            "intro": [chars(x) for x in ("sudokutools", sudokutools.__version__)], "w": 3, "h": 3, "rules": rules,
            "cands": bool(case["settings"].get("autocandidates", True)),
            "start": {"w": 3, "h": 3, "num": first["nums"], "cand": first["cands"]},
            "view": first["view"], "known": [player.solution] if player.solution else [],
            "lines": screen.lines, "ended": how}


RULES = [{}, {}, {}, {"autoset": True}, {"autoset": True}, {"autoremove": False},
         {"autoremove": False, "autoset": True}, {"autocandidates": False},
         {"autocandidates": False, "autoset": True}]
WEIGHTS = [("right", 8), ("wrong", 4), ("remove", 5), ("undo", 7), ("redo", 4), ("hint", 3),
           ("check", 2), ("conflicts", 2), ("candidates", 2), ("unknown", 3), ("nothing", 1),
           ("settings", 1)]


def plan(rng, length, boost=None):
    kinds = [k for k, n in WEIGHTS for _ in range(n)] + [boost] * 12 * bool(boost)
    result = []
    k = "right"
    for _ in range(length):
        # runs of the same thing
        if rng.random() < 0.75 or k not in ("undo", "redo", "right", "hint"):
            k = rng.choice(kinds)
        result.append({"k": k, "p": rng.randint(1, 81), "v": rng.randint(1, 9)})
    return result


class Games(Property):
    judge = "JudgeGame"
    assumptions = ASSUMED
    focus = "all"

    def models(self, tier):
        return [("MCGame", "MCGame.cfg" if tier == "quick" else "WGame.cfg", {})]

    def run(self, case):
        rec = play(case)
        rec["focus"] = self.focus
        return rec

    def case(self, kind, rng, plan, settings=None):
        if settings is None:
            settings = rng.choice(RULES)
        return {"kind": kind, "plan": plan, "settings": settings,
                "seed": rng.randrange(10 ** 6), "cost": len(plan), "limit": 120}

    def from_spec(self, count, seed, rng):
        made, _ = histories("MCGame", "GenGame.cfg", count, 40, seed)
        return [self.case("spec behaviour", rng, h) for h in made]

    def measure(self, cases, records):
        count = {}
        for r in records:
            for l in r.get("lines", []):
                w = (l["text"].split() or ["(empty)"])[0]
                if w not in ("hint", "undo", "redo", "check", "conflicts", "candidates",
                             "settings", "(empty)"):
                    w = "other"
                count[w] = count.get(w, 0) + 1
        return {"inputs": count,
                "techniques hinted": sorted(set(
                    h["t"] for r in records for l in r.get("lines", []) for h in l["hint"]))}


class C26(Games):
    id = "C26"
    focus = "history"

    def cases(self, rng, tier, seed):
        k = 2 if tier == "quick" else 15
        result = self.from_spec(25 * k, seed, rng)
        for _ in range(35 * k):
            result.append(self.case("random game", rng, plan(rng, rng.choice([15, 30, 50]), "undo")))
        for _ in range(10 * k):
            # far there and back again
            n = rng.choice([5, 12, 25])
            p = plan(rng, n, "right")
            some = {"p": rng.randint(1, 81), "v": rng.randint(1, 9)}
            p += [dict(some, k="undo")] * (n + 1) + [dict(some, k="redo")] * (n + 1)
            p += [dict(some, k="undo")] * rng.randint(1, n) + plan(rng, 3, "remove")
            p += [dict(some, k="redo")] * 2 + [dict(some, k="undo")] * (n + 2)
            result.append(self.case("there and back", rng, p))
        for _ in range(10 * k):
            # undone moves made again
            some = {"p": rng.randint(1, 81), "v": rng.randint(1, 9)}
            p = []
            for _ in range(rng.choice([2, 4])):
                n = rng.randint(2, 5)
                p += plan(rng, n, rng.choice(["right", "remove"]))
                p += [dict(some, k="undo")] * rng.randint(2, n)
                p += [dict(some, k="again")] * rng.randint(1, 2)
                p += [dict(some, k="redo")] * rng.randint(0, 2)
            result.append(self.case("made again", rng, p + [dict(some, k="undo")] * 3))
        for n in ([40, 130] if tier == "quick" else [40, 60, 130, 270, 600]):
            # a long history
            f = rng.randint(1, 81)
            p = [{"k": "text", "text": "%s=%d" % (field_name(f + (i // 30) % 2 if f < 81 else f,
                                                             rng), i % 9 + 1)} for i in range(n)]
            some = {"p": 1, "v": 1}
            p += [dict(some, k="undo")] * (n + 1) + [dict(some, k="redo")] * (n + 1)
            result.append(self.case("long history", rng, p, {"autoremove": False}))
        return result


class C27(Games):
    id = "C27"

    def cases(self, rng, tier, seed):
        k = 2 if tier == "quick" else 15
        result = self.from_spec(15 * k, seed + 1, rng)
        for boost in ("right", "wrong", "remove", "hint", "check", "conflicts", "unknown"):
            for _ in range(6 * k):
                result.append(self.case("random game", rng, plan(rng, rng.choice([12, 30]), boost)))
        for _ in range(6 * k):
            # all hints, again after the end, and after a move
            p = plan(rng, rng.choice([0, 3, 20]), "right") + [{"k": "hints"}]
            some = {"p": rng.randint(1, 81), "v": rng.randint(1, 9)}
            p += [dict(some, k="hint")] + plan(rng, 1, "right") + [dict(some, k="hint")] * 2
            p += [dict(some, k="undo")] + [dict(some, k="hint")] * 2 + [{"k": "hints"}]
            result.append(self.case("all hints", rng, p))
        for _ in range(6 * k):
            # a whole game
            p = [{"k": "right", "p": rng.randint(1, 81), "v": rng.randint(1, 9)}
                 for _ in range(62)]
            for w in ("check", "conflicts", "hint", "undo", "wrong", "remove"):
                p.insert(rng.randint(20, 61), {"k": w, "p": rng.randint(1, 81), "v": 5})
            p += [{"k": "hint", "p": 1, "v": 1}, {"k": "check", "p": 1, "v": 1}]
            result.append(self.case("whole game", rng, p))
        for _ in range(6 * k):
            # settings changed while playing
            p = plan(rng, 25, "remove")
            for _ in range(4):
                p.insert(rng.randint(0, 24), {
                    "k": "setting", "name": rng.choice(["autoremove", "autoset"]),
                    "value": rng.random() < 0.5})
            result.append(self.case("settings changed", rng, p))
        return result
