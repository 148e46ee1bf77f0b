"""C20, C21, C22: coordinate notation and moves."""
import re

import gen
from core import Property, attempt, build, changes, chars, pos, rc, snap

ASSUMED = ["TLC and the specification Notation.tla are trusted.",
           "Group separators are not empty and contain no letter or digit; number "
           "separators are empty or one character.",
           "Removals in text are judged for candidates of one digit only: the "
           "syntax has no way to write others.",
           "Signed numbers in set moves (r1c1=-2) are not judged."]
SEPS = [",", ", ", ";", " ", "/", " | ", "\n", ",,", ".", "-"]
NSEPS = ["", ",", ".", ";", " ", "_", ":"]
SPACES = " \t\n\r\x0b\x0c"


def pick(rng, w, h):
    """A set of positions of some kind."""
    n = w * h
    g = gen.Geo(w, h)
    kind = rng.randrange(7)
    if kind == 0:
        return [rng.randint(1, n * n)]
    if kind == 1:
        return sorted(i + 1 for i in rng.choice(g.units))
    if kind == 2:
        units = rng.sample(g.units, min(2, len(g.units)))
        return sorted(set(i + 1 for u in units for i in u))
    if kind == 3:
        rows = set(rng.sample(range(n), rng.randint(1, min(n, 3))))
        cols = set(rng.sample(range(n), rng.randint(1, min(n, 3))))
        return [r * n + c + 1 for r in sorted(rows) for c in sorted(cols)]
    if kind == 4:
        return list(range(1, n * n + 1))
    if kind == 5:
        part = rng.random()
        s = [i + 1 for i in range(n * n) if rng.random() < part]
        return s or [n * n]
    return sorted(rng.sample(range(1, n * n + 1), min(n * n, rng.randint(1, 5))))


def seps(rng):
    return rng.choice([",", rng.choice(SEPS)]), rng.choice(["", rng.choice(NSEPS)])


def kwargs(sep, nsep, rng):
    k = {}
    if sep != "," or rng.random() < 0.5:
        k["sep"] = sep
    if nsep != "" or rng.random() < 0.5:
        k["nsep"] = nsep
    return k


def shapes(tier, spread):
    k = 1 if tier == "quick" else 10
    return [s for group, c in zip((gen.SMALL, gen.MIDDLE, gen.NORMAL, gen.LARGE), spread)
            for s in group for _ in range(c * k)]


class Notation(Property):
    twins = 0.2
    judge = "JudgeNotation"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCNotation", "MCNotation.cfg" if tier == "quick" else "WNotation.cfg", {})]


class C20(Notation):
    id = "C20"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in shapes(tier, (10, 12, 60, 12)):
            fields = pick(rng, w, h)
            calls = []
            for mode in ("rows", "boxes", "auto", "auto"):
                sep, nsep = seps(rng)
                order = list(fields)
                rng.shuffle(order)
                if rng.random() < 0.3:
                    order += rng.sample(order, 1)
                calls.append({"mode": mode, "sep": sep, "nsep": nsep, "order": order,
                              "form": rng.randrange(4),
                              "kw": kwargs(sep, nsep, rng)})
            result.append({"kind": "write", "w": w, "h": h, "fields": fields,
                           "calls": calls})
        for w, h in shapes(tier, (2, 2, 6, 1)):
            n = w * h
            bad = [[n, 0], [0, n], [-1, 0], [0, -1], [n + 3, n], [0, 10 ** 5]]
            calls = []
            for mode in ("rows", "boxes", "auto"):
                order = [list(rc(p, n)) for p in pick(rng, w, h)] + [rng.choice(bad)]
                rng.shuffle(order)
                calls.append({"mode": mode, "what": "encode", "coords": order, "w": w, "h": h})
            for what in ("encode", "decode"):
                for dim in ([0, h], [w, 0], [-w, h], [w, -h], [-w, -h], [w + 0.5, h],
                            [w, h - 0.5], [0.5, 2]):
                    calls.append({"mode": "auto", "what": what, "coords": [[0, 0]],
                                  "w": dim[0], "h": dim[1]})
            result.append({"kind": "reject", "w": w, "h": h, "calls": calls})
        return result

    def run(self, case):
        from sudokutools.notation import decode, encode
        w, h = case["w"], case["h"]
        n = w * h
        boxes = {"rows": False, "boxes": True, "auto": None}
        out = []
        for c in case["calls"]:
            if case["kind"] == "reject":
                if c["what"] == "encode":
                    e, _ = attempt(encode, [tuple(x) for x in c["coords"]], width=c["w"],
                                   height=c["h"], use_boxes=boxes[c["mode"]])
                else:
                    e, _ = attempt(decode, "r1c1", width=c["w"], height=c["h"])
                out.append({"mode": "%s %s %sx%s" % (c["what"], c["mode"], c["w"], c["h"]),
                            "err": e})
                continue
            coords = [rc(p, n) for p in c["order"]]
            coords = [coords, tuple(coords), set(coords), iter(coords)][c["form"]]
            kw = dict(c["kw"])
            if c["mode"] != "auto" or c["form"]:
                kw["use_boxes"] = boxes[c["mode"]]
            x = {"mode": c["mode"], "sep": chars(c["sep"]), "nsep": chars(c["nsep"]),
                 "back": "", "got": [], "text": []}
            if (w, h) == (3, 3) and c["form"] % 2:
                x["err"], text = attempt(encode, coords, **kw)
            else:
                x["err"], text = attempt(encode, coords, w, h, **kw)
            if x["err"] == "ok":
                x["text"] = chars(text)
                x["back"], got = attempt(decode, text, w, h, sep=c["sep"], nsep=c["nsep"])
                if x["back"] == "ok":
                    x["got"] = [pos(y, n) for y in got]
            out.append(x)
        return {"kind": case["kind"], "w": w, "h": h, "fields": case.get("fields", []),
                "calls": out}


def tree(rng, w, h):
    n = w * h
    groups = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        axes = rng.sample("rcbp", rng.choice([1, 2, 2, 2, 3, 4]))
        if rng.random() < 0.5:
            axes = rng.choice([["r", "c"], ["b", "p"], ["c", "r"], ["p", "b"]])
        group = []
        for a in axes:
            some = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 3, n]))]
            group.append([a, some])
        groups.append(group)
    return groups


def render(t, n, sep, nsep):
    real = "," if n > 9 and not nsep else nsep
    return sep.join("".join(a + real.join(str(x) for x in some) for a, some in g) for g in t)


def spoil(rng, text, extra=""):
    alphabet = "rcbprcbp0123456789,,. ;-x=<>" + extra
    out = list(text)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(out) + 1)
        kind = rng.randrange(4)
        if kind == 0:
            out.insert(i, rng.choice(alphabet))
        elif kind == 1 and out:
            del out[min(i, len(out) - 1)]
        elif kind == 2 and out:
            out[min(i, len(out) - 1)] = rng.choice(alphabet)
        elif out:
            j = rng.randrange(len(out))
            i = min(i, len(out) - 1)
            out[i], out[j] = out[j], out[i]
    return "".join(out)


class C21(Notation):
    id = "C21"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in shapes(tier, (20, 20, 200, 16)):
            t = tree(rng, w, h)
            sep, nsep = seps(rng)
            text = render(t, w * h, sep, nsep)
            what = rng.randrange(5)
            if what <= 1:
                pass
            elif what == 2 and not set(sep + nsep) & set(SPACES):
                text = list(text)
                for _ in range(rng.randint(1, 5)):
                    text.insert(rng.randrange(len(text) + 1), rng.choice(SPACES))
                text = "".join(text)
            else:
                text, t = spoil(rng, text), []
            if rng.random() < 0.03:
                text, t = rng.choice(["", " ", sep, nsep, "r", "1", "r1c", "r1c1" + sep]), []
            result.append({"kind": "read", "w": w, "h": h, "text": text, "tree": t,
                           "sep": sep, "nsep": nsep, "kw": kwargs(sep, nsep, rng),
                           "style": rng.randrange(2)})
        return result

    def run(self, case):
        from sudokutools.notation import decode
        w, h = case["w"], case["h"]
        n = w * h
        if case["style"] and (w, h) == (3, 3):
            e, got = attempt(decode, case["text"], **case["kw"])
        elif case["style"]:
            e, got = attempt(decode, case["text"], width=w, height=h, **case["kw"])
        else:
            e, got = attempt(decode, case["text"], w, h, case["sep"], case["nsep"])
        return {"kind": "read", "w": w, "h": h, "text": chars(case["text"]),
                "tree": case["tree"], "sep": chars(case["sep"]), "nsep": chars(case["nsep"]),
                "err": e, "got": [pos(x, n) for x in got] if e == "ok" else []}

    def measure(self, cases, records):
        return {"correct expressions": sum(r.get("err") == "ok" for r in records),
                "rejected expressions": sum(r.get("err") == "ValueError" for r in records)}


class C22(Notation):
    id = "C22"

    def cases(self, rng, tier, seed):
        result = []
        for w, h in shapes(tier, (10, 10, 90, 6)):
            n = w * h
            if rng.random() < 0.5:
                cand = gen.random_cands(w, h, rng, rng.uniform(0.2, 0.9))
            else:
                cand = [list(range(1, n + 1)) for _ in range(n * n)]
            b = {"w": w, "h": h, "num": gen.noise(w, h, rng, rng.choice([0, 0.3, 0.8])),
                 "cand": cand}
            fields = pick(rng, w, h)
            if rng.random() < 0.5:
                m = {"kind": "set", "fields": fields, "number": rng.randint(1, n)}
            else:
                cs = rng.sample(range(1, n + 1), rng.randint(0 if rng.random() < 0.1 else 1, n))
                m = {"kind": "remove", "fields": fields, "cands": cs}
            c = {"kind": "move", "w": w, "h": h, "b": b, "move": m,
                 "form": rng.randrange(4), "pad": rng.choice(["", "", " ", "\n", "\t "])}
            real = "," if n > 9 else ""
            coords = render([[["r", [(p - 1) // n + 1]], ["c", [(p - 1) % n + 1]]] for p in fields],
                            n, ",", "")
            if m["kind"] == "set":
                c["texts"] = ["%s=%d" % (coords, m["number"]), "%s = %d" % (coords, m["number"])]
            else:
                d = real.join(map(str, m["cands"]))
                c["texts"] = ["%s<>%s" % (coords, d), "-%s %s" % (d, coords),
                              "-%s   %s" % (d, coords), "%s <>%s" % (coords, d)]
            base = rng.choice(c["texts"])
            result.append(c)
            for _ in range(2):
                text = spoil(rng, base, "<>==--")
                if rng.random() < 0.05:
                    text = rng.choice(["", " ", "-", "=", "<>", "=5", "-5", "<>5", "r1c1",
                                       "r1c1=", "r1c1<>", "r1c1=x", "r1c1<>x", "- r1c1",
                                       "r1c1 5", "5", "undo", "-5r1c1"])
                if re.search(r"=\s*[-+]", text):
                    # signed numbers: not judged
                    text = text.replace("=", "", 1)
                    if "=" in text:
                        continue
                if n > 9 and re.search(r"(<>|,|^-)\s*[-+]", text.strip()):
                    continue
                result.append({"kind": "move text", "w": w, "h": h, "b": b, "text": text})
        return result

    def run(self, case):
        from sudokutools.actions import RemoveCandidates, SetNumber
        from sudokutools.notation import decode_action, encode_action
        w, h, b = case["w"], case["h"], case["b"]
        n = w * h
        before = snap(build(b))
        rec = {"kind": case["kind"], "w": w, "h": h, "b": b, "chg": []}

        def effect(action):
            s = build(b)
            action(s)
            return [{"p": p, "v": v, "c": c} for p, v, c in changes(before, snap(s))]

        if case["kind"] == "move text":
            rec["text"] = chars(case["text"])
            if (w, h) == (3, 3):
                rec["err"], action = attempt(decode_action, case["text"])
            else:
                rec["err"], action = attempt(decode_action, case["text"], width=w, height=h)
            if rec["err"] == "ok":
                rec["err"], chg = attempt(effect, action)
                rec["chg"] = chg or []
            return rec

        m = case["move"]
        rec["move"] = m
        coords = [rc(p, n) for p in m["fields"]]
        coords = [coords, tuple(coords), set(coords), list(reversed(coords))][case["form"]]
        if m["kind"] == "set":
            action = SetNumber(coords, m["number"])
        else:
            action = RemoveCandidates(coords, [set(m["cands"]), list(m["cands"]),
                                               set(m["cands"]), set(m["cands"])][case["form"]])
        rec["texts"] = []
        rec["err"], chg = attempt(effect, action)
        rec["chg"] = chg or []
        err, text = attempt(encode_action, action, w, h)
        rec["texts"].append(dict(self.back(text, w, h, effect), how="encode", err=err,
                                 text=chars(text)))
        for t in case["texts"]:
            t = case["pad"] + t + case["pad"]
            rec["texts"].append(dict(self.back(t, w, h, effect), how="text", err="ok",
                                     text=chars(t)))
        return rec

    def back(self, text, w, h, effect):
        from sudokutools.notation import decode_action
        e, action = attempt(decode_action, text, w, h)
        chg = []
        if e == "ok":
            e, chg = attempt(effect, action)
        return {"back": e, "chg": chg or []}

    def measure(self, cases, records):
        t = [r for r in records if r.get("kind") == "move text"]
        return {"texts that are moves": sum(r["err"] == "ok" for r in t),
                "texts that are none": sum(r["err"] != "ok" for r in t)}
