"""C04, C05, C06: boards as text."""
import gen
from core import Property, attempt, build, chars, snap

NOBOARD = {"w": 0, "h": 0, "num": [], "cand": []}
ASSUMED = ["TLC and the specification Text.tla are trusted.",
           "Numbers and candidates are integers from 0 (1) to the number of rows."]


def some_board(rng, w, h, blank=0.3):
    n = w * h
    kind = rng.randrange(5)
    if kind == 0:
        num = gen.random_puzzle(w, h, rng, rng.randint(0, n * n))[0]
    elif kind == 1:
        num = gen.noise(w, h, rng, 1.0)
    elif kind == 2:
        num = [0] * (n * n)
    else:
        num = gen.noise(w, h, rng, rng.random())
    kind = rng.randrange(5)
    if kind == 0:
        cand = [[] for _ in num]
    elif kind == 1:
        cand = gen.calc(w, h, num)
    elif kind == 2:
        cand = [list(range(1, n + 1)) for _ in num]
    else:
        cand = gen.random_cands(w, h, rng, rng.random())
    if rng.random() < blank:
        cand = [c if rng.random() < 0.5 else [] for c in cand]
    return {"w": w, "h": h, "num": num, "cand": cand}


def shapes(rng, tier):
    """Shapes with how many cases each deserves."""
    quick = tier == "quick"
    plan = [(s, 12) for s in gen.SMALL] + [(s, 8) for s in gen.MIDDLE]
    plan += [((3, 3), 24)] + [(s, 4) for s in gen.LARGE]
    plan += [((1, 7), 3), ((7, 1), 3), ((1, 10), 2), ((11, 1), 2), ((1, 12), 2)]
    if not quick:
        plan = [(s, k * 12) for s, k in plan] + [((5, 5), 6), ((1, 17), 6), ((6, 4), 6)]
    return [s for s, k in plan for _ in range(k)]


class C04(Property):
    twins = 0.2
    id = "C04"
    judge = "JudgeText"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCText", "MCText.cfg", {})]

    def cases(self, rng, tier, seed):
        seps = [" ", ";", "-", "_", "/", "\t", "\n", ":", "x", "."]
        result = []
        for w, h in shapes(rng, tier):
            b = some_board(rng, w, h)
            kind = rng.randrange(4)
            back = True
            if w * h <= 9 and kind == 0:
                col, row = "", rng.choice(["", "\n", " ", "\t", "\n\n", " \n"])
            elif kind == 1:
                # only the text, for any separators
                col = rng.choice(["", ",", ", ", " | ", "--", " ", "ab"])
                row = rng.choice(["", "\n", "\n---\n", ",", " ; ", "r"])
                back = False
            else:
                col = rng.choice(seps)
                row = rng.choice([col, "\n", " ", "\n\n", "\t", col + "\n", " " + col])
            result.append({"kind": "encode", "b": b, "row": row, "col": col,
                           "cand": rng.random() < 0.6, "back": back,
                           "style": rng.randrange(3)})
        return result

    def run(self, case):
        from sudokutools.sudoku import Sudoku
        s = build(case["b"])
        row, col, cand = case["row"], case["col"], case["cand"]
        if row == "" and col == "" and not cand:
            err, text = attempt(s.encode)
        elif case["style"] == 0:
            err, text = attempt(s.encode, row, col, cand)
        else:
            err, text = attempt(s.encode, row_sep=row, col_sep=col,
                                include_candidates=cand)
        back, derr = [], ""
        if case["back"] and err == "ok":
            box = (case["b"]["w"], case["b"]["h"])
            if case["style"] == 1:
                derr, d = attempt(Sudoku.decode, text, number_sep=col or None,
                                  box_size=box)
            else:
                derr, d = attempt(Sudoku.decode, text, "0", col or None, "|", ",", box)
            back = [snap(d) if derr == "ok" else NOBOARD]
        return {"kind": "encode", "w": case["b"]["w"], "h": case["b"]["h"],
                "b": case["b"], "rowsep": chars(row), "colsep": chars(col),
                "cand": cand, "err": err, "text": chars(text) if err == "ok" else [],
                "derr": derr, "back": back, "after": snap(s)}


WHITE = [" ", "\n", "\t", "\r", "  ", "\n\n", " \n", "\f", "\v"]


class C05(Property):
    twins = 0.2
    id = "C05"
    judge = "JudgeText"
    assumptions = ASSUMED + [
        "Separators and the empty character are single, distinct characters, the "
        "empty character is no whitespace; a text with an explicit shape has "
        "exactly the fields of that shape."]

    def models(self, tier):
        return [("MCText", "MCText.cfg", {})]

    def text(self, rng, w, h, explicit):
        n = w * h
        empty = rng.choice(["0", "0", ".", "*", "x", "?", "#"])
        ssep = rng.choice(["|", "|", "!", "@"])
        csep = rng.choice([",", ",", "&", "~"])
        nsep = None
        if n > 9 or rng.random() < 0.5:
            nsep = rng.choice([" ", " ", ";", "/", "\t", "\n", "-"])
        lay = rng.choice([0, 0, 0.1, 0.5])

        def white():
            return rng.choice(WHITE) if rng.random() < lay else ""

        def number(v):
            if v == 0:
                return rng.choice([empty, empty, "0"]) if rng.random() < 0.2 else empty
            return str(v)

        def join(items):
            if nsep is None:
                return "".join(x + white() for x in items)
            out = ""
            for i, x in enumerate(items):
                if i:
                    k = rng.random()
                    out += nsep if k < 0.8 else nsep + nsep if k < 0.9 else \
                        nsep + rng.choice(WHITE) if k < 0.95 else rng.choice(WHITE)
                out += x
            return out
        b = some_board(rng, w, h)
        # the text does not need to be a proper board
        items = [number(v) for v in b["num"]]
        kind = rng.random()
        if kind < 0.12 and not explicit:
            # some number of fields
            k = rng.randint(1, n * n + 5)
            items = (items * 2)[:k]
        elif kind < 0.22:
            # a character which is no number
            i = rng.randrange(len(items))
            items[i] = rng.choice(["a", "Z", "%", "(", "="] +
                                  [c for c in ".*x?#" if c != empty])
            if nsep and rng.random() < 0.5:
                items[i] = "1" + items[i]
        t = white() + join(items) + white()
        if rng.random() < 0.6 and kind > 0.05:
            lists = [[str(v) for v in c] for c in b["cand"]]
            for x in lists:
                rng.shuffle(x)
            lists = lists[:rng.randint(0, len(items))]
            if rng.random() < 0.08 and lists:
                i = rng.randrange(len(lists))
                lists[i] = lists[i] + [rng.choice(["a", "%", "("])]
            t += ssep + white() + csep.join(
                white() + join(x) + white() for x in lists) + white()
        return {"kind": "decode", "text": t, "empty": empty, "ssep": ssep,
                "csep": csep, "nsep": nsep, "box": [w, h] if explicit else []}

    def cases(self, rng, tier, seed):
        result = []
        for w, h in shapes(rng, tier):
            for explicit in (True, False):
                result.append(self.text(rng, w, h, explicit))
        # every number of fields
        for k in range(1, 150 if tier == "quick" else 1300):
            nsep = rng.choice([None, " ", ";"])
            t = (nsep or "").join(rng.choice("0123") for _ in range(k))
            result.append({"kind": "decode", "text": t, "empty": "0", "ssep": "|",
                           "csep": ",", "nsep": nsep, "box": []})
        # every row length which gives a grid, and those which do not
        for k in range(1, 27 if tier == "quick" else 50):
            nsep = rng.choice([" ", ";", ","])
            t = nsep.join(str(rng.randint(0, k)) for _ in range(k * k))
            result.append({"kind": "decode", "text": t, "empty": "0", "ssep": "|",
                           "csep": ":", "nsep": nsep, "box": []})
        for c in result:
            c["style"] = rng.randrange(2)
        return result

    def run(self, case):
        from sudokutools.sudoku import Sudoku
        kw = {}
        for name, key, default in (("empty", "empty", "0"), ("number_sep", "nsep", None),
                                   ("sudoku_sep", "ssep", "|"),
                                   ("candidate_sep", "csep", ",")):
            if case["style"] or case[key] != default:
                kw[name] = case[key]
        if case["box"]:
            kw["box_size"] = tuple(case["box"])
        err, d = attempt(Sudoku.decode, case["text"], **kw)
        return {"kind": "decode", "text": chars(case["text"]), "empty": case["empty"],
                "ssep": case["ssep"], "csep": case["csep"],
                "nsep": [case["nsep"]] if case["nsep"] else [], "box": case["box"],
                "err": err, "got": snap(d) if err == "ok" else NOBOARD,
                "sizes": [[1, 1]]}

    def measure(self, cases, records):
        return {"rejected texts": sum(1 for r in records if r.get("err", "ok") != "ok")}


class C06(Property):
    twins = 0.2
    id = "C06"
    judge = "JudgeText"
    assumptions = ASSUMED + ["The width of the fields is taken from the first line."]

    def models(self, tier):
        return [("MCText", "MCText.cfg", {})]

    def cases(self, rng, tier, seed):
        result = []
        for w, h in shapes(rng, tier):
            b = some_board(rng, w, h)
            for _ in range(2):
                result.append({
                    "kind": "view", "b": b,
                    "cand": rng.random() < 0.75,
                    "sep": rng.choice([None, None, "", ",", " ", "/", ", "]),
                    "prefix": rng.choice(["*", "*", "", "?", "c:", " "]),
                    "right": rng.random() < 0.5, "style": rng.randrange(3)})
            result.append({"kind": "view", "b": b, "cand": False, "sep": None,
                           "prefix": "*", "right": True, "style": 3})
        return result

    def run(self, case):
        from sudokutools.sudoku import view
        s = build(case["b"])
        style = case["style"]
        if style == 3:
            err, text = attempt(str, s)
        elif style == 0:
            err, text = attempt(view, s, case["cand"], case["sep"], case["prefix"],
                                case["right"])
        else:
            kw = {}
            if style == 1 or not case["cand"]:
                kw["include_candidates"] = case["cand"]
            if style == 1 or case["sep"] is not None:
                kw["number_sep"] = case["sep"]
            if style == 1 or case["prefix"] != "*":
                kw["candidate_prefix"] = case["prefix"]
            if style == 1 or not case["right"]:
                kw["align_right"] = case["right"]
            err, text = attempt(view, s, **kw)
        lines = text.split("\n") if err == "ok" and isinstance(text, str) else []
        return {"kind": "view", "w": case["b"]["w"], "h": case["b"]["h"], "b": case["b"],
                "cand": case["cand"], "right": case["right"],
                "prefix": chars(case["prefix"]),
                "sep": [] if case["sep"] is None else [chars(case["sep"])],
                "err": err, "lines": [chars(x) for x in lines], "after": snap(s)}
