"""C32: answers do not depend on what was asked before."""
import hashlib
import io
import json
import os
import random
import sys

import gen
from core import (Property, attempt, build, changes, exc_name, histories, num,
                  rc, snap)
from p_board import Machine
from p_cursors import alone
from p_steps import ALL

SHAPES = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 2), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2),
          (2, 3), (3, 2), (6, 1), (1, 5), (2, 4), (4, 2), (3, 3), (3, 3), (3, 3)]


def pool(rng, w, h):
    """Seven boards which have much in common, and a solution."""
    n = w * h
    num, full = gen.unique_puzzle(w, h, rng, None if n < 8 else 45)
    if rng.random() < 0.3:
        for i in rng.sample(range(n * n), min(n * n, rng.randint(1, 2))):
            num[i] = 0
    none = [[] for _ in num]

    def board(m, c, w=w, h=h):
        return {"w": w, "h": h, "num": list(m), "cand": [list(x) for x in c]}
    less = list(num)
    i = rng.choice([i for i in range(n * n) if num[i]] or [0])
    less[i] = 0 if n > 6 else rng.choice([0, rng.randint(1, n)])
    calc = gen.calc(w, h, num)
    thin = gen.thin(calc, num, [full], rng, 0.3)
    if w != h:
        turned = board(num, none, h, w)
    else:
        sym = [0] + rng.sample(range(1, n + 1), n)
        turned = board([sym[v] for v in num], none)
    # two numbers exchanged or replaced by two of the same sum
    rival = list(num)
    unit = rng.choice(gen.Geo(w, h).units[2 * n if rng.random() < 0.7 else 0:])
    pairs = [(i, j) for i in unit for j in unit if num[i] and num[j] and num[i] != num[j]]
    if pairs:
        i, j = rng.choice(pairs)
        a, b = rival[i], rival[j]
        same = [(c, a + b - c) for c in range(1, n + 1) if c not in (a, b) and 1 <= a + b - c <= n]
        rival[i], rival[j] = rng.choice(same) if same and rng.random() < 0.5 else (b, a)
    other = rng.choice([board(full, none), board(full, [[v] for v in full]),
                        board([0] * (n * n) if n < 8 else num, gen.random_cands(w, h, rng))])
    return [board(num, none), board(num, calc), board(less, rng.choice([none, calc])),
            turned, board(num, thin), other, board(rival, none)], full


def concrete(rng, made):
    """A behaviour of the specification with boards, fields and numbers."""
    w, h = rng.choice(SHAPES)
    n = w * h
    boards, full = pool(rng, w, h)
    often = [0, rng.choice([1, 2, 3, 3, 4, 6, 6])]
    ops, shown = [], []
    for e in made:
        e = dict(e)
        if e["op"] == "load":
            # two of the boards again and again
            k = e.pop("k") - 1 if rng.random() < 0.5 else rng.choice(often)
            e["board"] = boards[k]
            shown.append(boards[k])
        elif e["op"] == "copy":
            shown.append(shown[e["b"] - 1])
        elif e["op"] in ("set", "setcand", "remcand"):
            x, y = e.pop("x"), e.pop("y")
            # few different fields, so that boards come back to an earlier state
            e["p"] = 1 + (x if x % 3 == 0 else x % 4) % (n * n)
            right = full[e["p"] - 1]
            if e["op"] == "set":
                e["v"] = [0, right][y % 2] if n > 6 or y % 4 else 1 + y // 4 % n
            elif e["op"] == "setcand":
                e["s"] = sorted(set([right, 1 + y % n, 1 + y // 10 % n]))
            else:
                e["s"] = sorted(set([1 + y % n, 1 + y // 10 % n]) - set([right]))
        ops.append(e)
    return {"kind": "spec behaviour", "ops": ops, "cost": n ** 3, "limit": 120}


def text_of(x):
    """Anything as text which tells all about it."""
    from sudokutools.solvers import SolveStep
    from sudokutools.sudoku import Sudoku
    if isinstance(x, Sudoku):
        return "board " + json.dumps(snap(x))
    if isinstance(x, SolveStep):
        return "%s %s %s %s" % (type(x).__name__, x.clues, x.affected, x.values)
    if isinstance(x, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(text_of(y) for y in x))
    if isinstance(x, dict):
        return "{%s}" % ", ".join(sorted(text_of(k) + ":" + text_of(v) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(text_of(y) for y in x)
    return repr(x)


def wreck(x, depth=0):
    """What a caller may do with an answer: it belongs to him."""
    from sudokutools.solvers import SolveStep
    from sudokutools.sudoku import Sudoku
    if depth > 3:
        return
    if isinstance(x, Sudoku):
        for r, c in list(x):
            x[r, c] = 1
            x.set_candidates(r, c, {1})
    elif isinstance(x, SolveStep):
        x.clues = x.affected = x.values = ()
        x.actions = []
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, set):
        x.add(77)
    elif isinstance(x, (list, tuple)):
        for y in x:
            wreck(y, depth + 1)
        if isinstance(x, list):
            x.append((0, 0))
            del x[:1]


def first(it, k):
    out = []
    for x in it:
        out.append(x)
        if len(out) >= k:
            break
    return out


class Asker(Machine):
    def run(self, ops, seed, last=None):
        """Perform all operations, or only the changing ones and the last."""
        out = []
        for i, e in enumerate(ops):
            if last is not None:
                if i > last:
                    break
                if e["op"] == "ask" and i != last:
                    continue
            self.rng = random.Random("%s-%d" % (seed, i))
            if last is None:
                out.append(self.step(e))
            else:
                out = attempt(self.do, e)
        return out

    def step(self, e):
        out = Machine.step(self, e)
        if e["op"] == "ask":
            out["ans"] = out.pop("res") or out["err"]
            out["err"] = "ok"
        if e["op"] == "load" and "made" not in out:
            out["made"] = {"w": 1, "h": 1, "num": [], "cand": []}
            out["err"] = "nothing made"
        return out

    def do(self, e):
        if e["op"] == "load":
            self.heap.append(build(e["board"]))
            return []
        if e["op"] == "ask":
            random.seed(e["x"])
            err, got = attempt(self.ask, e["q"], self.heap[e["b"] - 1], e["x"])
            try:
                text = err + " " + text_of(got)
                if e["q"] == "generate":
                    text = err
                wreck(got)
            except Exception as x:
                text = "strange answer: " + exc_name(x)
            if len(text) > 150:
                text = text[:100] + "... " + hashlib.sha1(text.encode()).hexdigest()
            return text
        if e["op"] == "init":
            from sudokutools.solve import init_candidates
            init_candidates(self.heap[e["b"] - 1], filled_only=e["c"])
            return []
        return Machine.do(self, e)

    def ask(self, q, b, x):
        from sudokutools import analyze, coordinates, generate, notation, solve, solvers
        from sudokutools.sudoku import Sudoku, view
        w, h = b.box_width, b.box_height
        n = w * h
        r, c = x % n, x // 10 % n
        small = n <= 6
        flag = bool(x // 7 % 2)
        other = self.heap[x % len(self.heap)]
        if q == "text":
            return [str(b), b.encode(), b.encode("\n", " ", True), b.encode(" | ", ",", flag)]
        if q == "view":
            return [view(b), view(b, flag), view(b, number_sep="-", align_right=flag)]
        if q == "fields":
            return [list(b), list(b.empty()), list(b.filled()), b.count(), len(b),
                    list(b.indices), list(b.numbers), tuple(b.box_size)]
        if q == "geometry":
            return [f(r, c, include=i) for i in (True, False)
                    for f in (b.row_of, b.column_of, b.box_of, b.surrounding_of)] + [b.box_at(r, c)]
        if q == "functions":
            k = coordinates
            return [f(r, c, w, h, i) for i in (True, False)
                    for f in (k.row_of, k.column_of, k.box_of, k.surrounding_of)] + \
                [f(c, w, h) for f in (k.the_row, k.the_column, k.the_box, k.the_part)] + \
                [k.box_at(r, c, w, h)]
        if q == "calc":
            return [solve.calc_candidates(b, *f) for f in b]
        if q == "conflicts":
            return [sorted(analyze.find_conflicts(b)), sorted(analyze.find_conflicts(b, (r, c), (c, r)))]
        if q == "solved":
            return analyze.is_solved(b)
        if q == "unique":
            return analyze.is_unique(b)
        if q == "dlx":
            return first(solve.dlx(b), 1 + x % 4)
        if q == "bruteforce":
            return first(solve.bruteforce(b), 1 + x % 4) if small else None
        if q == "solve":
            steps = []
            return [solvers.solve(b, steps.append) if flag else solvers.solve(b), steps]
        if q == "rate":
            return analyze.rate(b)
        if q == "score":
            return analyze.score(b)
        if q == "hints":
            if flag:
                return first(solvers.hints(b), 400)
            # up to the first step of one of the techniques there
            out = []
            names = sorted(set(type(y).__name__ for y in first(solvers.hints(b), 400)))
            for step in solvers.hints(b):
                out.append(step)
                if type(step).__name__ == names[x % len(names)] or len(out) > 400:
                    break
            return out
        if q == "find":
            return list(getattr(solvers, ALL[x % len(ALL)]).find(b))
        if q == "first":
            return first(getattr(solvers, ALL[x % len(ALL)]).find(b), 1)
        if q == "techniques":
            s = b.copy(include_candidates=True)
            getattr(solvers, ALL[x % (len(ALL) - 1)]).apply_all(s)
            return s
        if q == "compare":
            out = [b == other, b != other]
            if len(b) == len(other):
                out += [list(b.diff(other)), b.equals(other), b.equals(other, candidates=True)]
            return out
        if q == "copy":
            s = b.copy(include_candidates=flag)
            if x % 5 == 0:
                solve.init_candidates(s, filled_only=flag)
            return s
        if q == "decode":
            if flag:
                return Sudoku.decode(b.encode(), box_size=(w, h))
            return Sudoku.decode(b.encode(" ", " ", True), number_sep=" ", box_size=(w, h))
        if q == "coordinates":
            f = list(b.filled())
            out = [notation.encode(f, w, h), notation.encode(f, w, h, use_boxes=flag)] if f else []
            t = "r%dc%d,b%d" % (r + 1, c + 1, c + 1)
            return out + [notation.decode(y, w, h) for y in out + [t]]
        if q == "moves":
            t = "r%dc%d%s%d" % (r + 1, c + 1, "=" if flag else "<>", c + 1)
            a = notation.decode_action(t, w, h)
            s = b.copy(include_candidates=True)
            a(s)
            return [s, notation.encode_action(a, w, h)]
        if q == "generate":
            generate.create_solution((w, h))
            if small:
                generate.generate(box_size=(w, h), symmetry=[None, "rotate-90", "mirror-x"][x % 3])
                generate.generate_from_template(b, tries=2)
            return None
        if q == "shell":
            from sudokutools.shell import Shell
            lines = "decode '%s' box_size=(%d,%d)\nunique\nrate\nset %d %d %d\nconflicts\nprint\n" % (
                b.encode(), w, h, r, c, x % n + 1)
            out, err, keep = io.StringIO(), io.StringIO(), (sys.stdout, sys.stderr)
            sys.stdout, sys.stderr = out, err
            try:
                attempt(Shell(interactive=False, infile=io.StringIO(lines), outfile=out).run)
            except SystemExit as e:
                out.write("exit %s" % e.code)
            finally:
                sys.stdout, sys.stderr = keep
            return [out.getvalue(), err.getvalue()]
        raise KeyError(q)


def whole(ops, seed):
    return Asker(0).run(ops, seed)


def purged(ops, seed, last):
    err, text = Asker(0).run(ops, seed, last)
    return text if err == "ok" else err


class C32(Property):
    id = "C32"
    judge = "JudgeHistory"
    assumptions = [
        "TLC and the specification (History.tla, Board.tla) are trusted.",
        "Answers without questions before come from a process forked before "
        "any use of the library for this purpose: hash seeds are the same.",
        "Answers which the library draws at random are not compared."]

    def models(self, tier):
        result = [("MCHistory", "MCHistory.cfg", {})]
        if tier != "quick":
            result.append(("MCHistory", "WHistory.cfg", {}))
            result += [("MCHistory", "FHistory-%s.cfg" % w, {"fails": "Unshown"})
                       for w in ("shape", "candidates", "content")]
        return result

    def cases(self, rng, tier, seed):
        made, _ = histories("MCHistory", "GenHistory.cfg",
                            500 if tier == "quick" else 4000, 40, seed)
        return [dict(concrete(rng, m), seed=rng.randrange(10 ** 6)) for m in made]

    def run(self, case):
        import sudokutools.analyze, sudokutools.generate, sudokutools.notation
        import sudokutools.shell, sudokutools.solvers
        ops = case["ops"]
        err, out = alone(whole, ops, case["seed"])
        if err != "ok":
            return {"kind": "history", "fault": "the history ended with " + err}
        for i, e in enumerate(ops):
            if e["op"] == "ask":
                err, text = alone(purged, ops, case["seed"], i)
                out[i]["alone"] = text if err == "ok" else err
        sizes = sorted(set((e["board"]["w"], e["board"]["h"]) for e in ops if e["op"] == "load"))
        return {"kind": "history", "sizes": [list(s) for s in sizes], "ops": out}

    def measure(self, cases, records):
        count = {}
        for c in cases:
            for e in c["ops"]:
                k = e.get("q", e["op"])
                count[k] = count.get(k, 0) + 1
        odd = sum(1 for r in records for e in r.get("ops", ())
                  if e["op"] == "ask" and not e["ans"].startswith("ok"))
        return {"operations": count, "answers that are errors": odd}
