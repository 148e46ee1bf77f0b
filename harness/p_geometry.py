"""C01: the geometry of the grid."""
from core import Property, attempt, num, pos


class C01(Property):
    twins = 0.2
    id = "C01"
    judge = "JudgeGeometry"
    assumptions = [
        "TLC, the TLA+ specification of the geometry (Grid.tla) and the harness "
        "translating coordinates to positions are trusted.",
        "Box shapes up to the bound given by the cases; the order inside a list "
        "is not judged."]

    def models(self, tier):
        return [("MCGrid", "MCGrid.cfg", {})]

    def cases(self, rng, tier, seed):
        top = 16 if tier == "quick" else 30
        sizes = [(w, h) for w in range(1, top + 1) for h in range(1, top + 1)
                 if w * h <= top]
        if tier != "quick":
            sizes += [(6, 6), (1, 36), (36, 1), (4, 9), (8, 5)]
        result = []
        for w, h in sizes:
            n = w * h
            for k in range(n):
                result.append({"kind": "row of fields", "w": w, "h": h, "row": k,
                               "cost": n * n})
            result.append({"kind": "units", "w": w, "h": h, "cost": n * n,
                           "seed": rng.randrange(10 ** 6)})
        return result

    def run(self, case):
        from sudokutools import coordinates as co
        from sudokutools.sudoku import Sudoku
        w, h = case["w"], case["h"]
        n = w * h

        def value(f, *a, **k):
            e, r = attempt(f, *a, **k)
            return num(r) if e == "ok" else -77

        def listed(f, *a, **k):
            """The positions listed; asked twice, changing the first answer."""
            e, r = attempt(f, *a, **k)
            if e != "ok":
                return [-77]
            first = [pos(x, n) for x in r]
            try:
                r.append((0, 0))
                del r[:len(r) // 2]
            except (AttributeError, TypeError):
                pass
            e, r = attempt(f, *a, **k)
            if e != "ok":
                return [-77]
            second = [pos(x, n) for x in r]
            return first if sorted(first) == sorted(second) else first + [-78] + second

        if case["kind"] == "units":
            result = {"kind": "units", "w": w, "h": h, "units": [], "outside": []}
            for name in ("row", "column", "box", "part"):
                f = getattr(co, "the_" + name)
                result["units"].append(
                    [listed(f, i, width=w, height=h) if i % 2 else listed(f, i, w, h)
                     for i in range(n)])
                for i in (-1, -2, -n, -n - 1, n, n + 1, 2 * n, n * n, 10 ** 6):
                    e, r = attempt(f, i, w, h)
                    result["outside"].append(e)
            if (w, h) == (3, 3):
                result["units"] = [
                    [listed(getattr(co, "the_" + x), i) for i in range(n)]
                    for x in ("row", "column", "box", "part")]
            return result

        board = Sudoku(box_size=(w, h))
        board[n - 1, 0] = n
        board.set_candidates(0, n - 1, {1})
        fields = []
        r = case["row"]
        for c in range(n):
            fn, me = [], []
            for name in ("row_of", "column_of", "box_of", "surrounding_of"):
                f, m = getattr(co, name), getattr(board, name)
                fn.append(listed(f, r, c, w, h))
                fn.append(listed(f, r, c, width=w, height=h, include=True))
                fn.append(listed(f, r, c, w, h, False))
                fn.append(listed(f, r, c, height=h, include=False, width=w))
                me.append(listed(m, r, c))
                me.append(listed(m, r, c, include=True))
                me.append(listed(m, r, c, False))
                me.append(listed(m, r, c, include=False))
                if (w, h) == (3, 3):
                    fn[-4] = listed(f, r, c)
                    fn[-2] = listed(f, r, c, include=False)
            fields.append({"p": pos((r, c), n), "fn": fn, "me": me,
                           "at": [value(co.box_at, r, c, w, h),
                                  value(co.box_at, r, c, width=w, height=h),
                                  value(board.box_at, r, c)] +
                           ([value(co.box_at, r, c)] if (w, h) == (3, 3) else [])})
        return {"kind": "fields", "w": w, "h": h, "fields": fields}
