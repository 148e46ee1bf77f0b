"""C23, C24, C25, C28, C31: the command shell."""
import io
import os
import random
import subprocess
import sys
import tempfile

import gen
from core import (JUDGE_CFG, REPO, Property, child_env, chars, histories, scratch, snap)

ASSUMED = [
    "TLC and the specification (Shell.tla, Board.tla, Text.tla) are trusted.",
    "Board and stack are read from the attributes of the shell.",
    "Quoted texts contain no blanks, semicolons or number signs; rows and columns are "
    "not negative; numbers and candidates are between 0 and the number of rows."]
READERS = ["get", "get_candidates", "encode", "print", "view", "stack"]


# ---------------------------------------------------------------------------
# writing commands

def literal(t, rng):
    """A quoted text the shell can read."""
    esc = {" ": "\\x20", ";": "\\x3b", "#": "\\x23", "=": "\\x3d", "\n": "\\n",
           "\t": "\\t", "\\": "\\\\", "'": "\\'", '"': '\\"'}
    q = rng.choice("'\"")
    return q + "".join(esc.get(c, c) for c in t) + q


def values(s, rng):
    """Candidates in some notation."""
    k = rng.randrange(4)
    items = [str(v) for v in s]
    if k == 0 and s:
        rng.shuffle(items)
        return "{" + ",".join(items) + "}"
    if k == 1:
        return "[" + ",".join(items + items[:1]) + "]"
    if k == 2 and len(s) > 1:
        return ",".join(items)
    return "(" + ",".join(items) + ("," if len(s) == 1 else "") + ")"


def arguments(pairs, rng, required=0):
    """pairs: (name, text, default or None); the first ones positional."""
    pairs = list(pairs)
    k = rng.randint(0, len(pairs)) if rng.random() < 0.5 else len(pairs)
    if required and rng.random() < 0.6:
        k = max(k, required)
    out = [text for name, text, dflt in pairs[:k]]
    # leave out what is the default, at the end
    while out and pairs[len(out) - 1][1] == pairs[len(out) - 1][2] and rng.random() < 0.6:
        out.pop()
        k -= 1
    rest = [p for p in pairs[k:] if p[1] != p[2] or rng.random() < 0.2]
    rng.shuffle(rest)
    # in a named argument an equals sign needs no escape
    plain = rng.random() < 0.7
    return out + ["%s=%s" % (name, text.replace("\\x3d", "=") if plain else text)
                  for name, text, dflt in rest]


FAIL = ["get 0", "get", "get 0 0 0", "set 1", "set 0 0", "set 0 0 1 1", "new foo=1", "new 3",
        "new 3 3", 'generate symmetry="foo"', "generate min_count=1000",
        "generate rating=3", 'decode "123"', "decode 5", "decode", 'decode "1234" "a" "b" "c" "d" "e" "f"',
        'decode "12a4"', "set 50 0 1", "set 0 50 1", "get 50 0", "get_candidates 0 50",
        "set_candidates 0 0 5", "set_candidates 0 0", "set_candidates 0 0 [[1]]",
        "set_candidates 50 0 {1}", "remove_candidates 0 0 None", "remove_candidates 0 0 [1,[2]]",
        "pop 99", 'pop "x"', "pop 0 0", "push 3", "push 0", "stack 1", "solve 1", "solve fast=True",
        "clear 1", "init_candidates 1 2", "init_candidates foo=1", "encode 1", "encode 1 1 1 1",
        "print 1", "view 1 2 3 4 5", "view colour=1", "help 3", 'help "set"', "help end",
        "generate_from_template tries=0", "generate_from_template a=1", "pop None None",
        "get row=0 column=0", "set end 0 1", "set 0 0 1 value=2", "decode new"]
BAD = ["foo", "set 0 0 foo", "loop x", "help foo", "encode row_sep=x", "end", "SET 0 0 1",
       "set_candidates 0 0 {[1]}", "set 0 0 1+", "set 0 0 (1", "new box_size=", "get 0 08",
       'decode "12', "set 0 0 1)", "pop -", "print=1", "news", "0 0 5", "loop n=end",
       "set 0 0 ,", "set_candidates 0 0 {1,2", "encode [", "pushpop", "generate min_count=abc",
       "set 0 0 __import__('os')", "set 0 0 [].append(1)", "view candidate_prefix=*", "-", "help()",
       "set 0 0 {{}:1}", "loop 3x"]
LOOPFAIL = ["loop", "loop 2 3", 'loop "x"', "loop None", "loop [1]", "loop count=2", "loop new"]
EXITFAIL = ["exit 5", "exit now=1", "exit exit"]


def render(c, rng):
    op = c["op"]
    if op == "fail":
        return rng.choice(FAIL)
    if op == "bad":
        return rng.choice(BAD)
    if op == "loop fail":
        return rng.choice(LOOPFAIL)
    if op == "exit fail":
        return rng.choice(EXITFAIL)
    if op in ("loop end", "exit", "push", "stack", "print", "clear", "solve"):
        return op
    if op == "help":
        return "help" if len(c["names"]) == len(NAMES) else "help " + "".join(c["names"][0])
    a = []
    if op == "new":
        box = rng.choice(["(%d,%d)", "[%d,%d]", "%d,%d"]) % (c["w"], c["h"])
        a = arguments([("box_size", box, "(3,3)")], rng)
    elif op == "decode":
        o = c["o"]
        box = "None" if not o["box"] else "(%d,%d)" % tuple(o["box"])
        a = arguments([("s", literal("".join(c["t"]), rng), None),
                       ("empty", literal(o["empty"], rng), literal("0", rng)),
                       ("number_sep", literal("".join(o["nsep"]), rng) if o["nsep"] else "None", "None"),
                       ("sudoku_sep", literal(o["ssep"], rng), literal("|", rng)),
                       ("candidate_sep", literal(o["csep"], rng), literal(",", rng)),
                       ("box_size", box, "None")], rng, 1)
    elif op == "generate":
        sym = "None" if c["sym"] == "none" else literal(c["sym"], rng)
        a = arguments([("min_count", str(c["least"]), "0"), ("symmetry", sym, "None"),
                       ("box_size", "(%d,%d)" % (c["w"], c["h"]), "(3,3)")], rng)
    elif op == "template":
        op = "generate_from_template"
        a = arguments([("tries", str(c["tries"]), "100")], rng)
    elif op == "set":
        a = arguments([("row", str(c["r"]), None), ("col", str(c["c"]), None),
                       ("value", str(c["v"]), None)], rng, 3)
    elif op in ("set_candidates", "remove_candidates"):
        a = arguments([("row", str(c["r"]), None), ("col", str(c["c"]), None),
                       ("value", values(c["s"], rng), None)], rng, 3)
    elif op in ("get", "get_candidates"):
        a = arguments([("row", str(c["r"]), None), ("col", str(c["c"]), None)], rng, 2)
    elif op == "init_candidates":
        a = arguments([("filled_only", str(c["filled"]), "False")], rng)
    elif op == "encode":
        a = arguments([("row_sep", literal("".join(c["rowsep"]), rng), "''"),
                       ("col_sep", literal("".join(c["colsep"]), rng), "''"),
                       ("include_candidates", str(c["cand"]), "False")], rng)
    elif op == "view":
        a = arguments([("include_candidates", str(c["cand"]), "True"),
                       ("number_sep", "None" if c["nosep"] else literal("".join(c["sep"]), rng), "None"),
                       ("candidate_prefix", literal("".join(c["prefix"]), rng), "'*'"),
                       ("align_right", str(c["right"]), "True")], rng)
    elif op == "pop":
        if c["last"]:
            a = rng.choice([[], [], ["None"], ["position=None"]])
        else:
            a = rng.choice([["%d"], ["%d"], ["position=%d"], ['"%d"']])
            a = [a[0] % c["i"]]
    elif op == "loop":
        a = [rng.choice(["%d", "%d", "n=%d", "'%d'"]) % c["n"]]
    return " ".join([op] + a)


# ---------------------------------------------------------------------------
# histories

OPTIONS = {"empty": "0", "nsep": [], "ssep": "|", "csep": ",", "box": []}
def unique_texts(rng, shapes, count=4):
    """Uniquely solvable puzzles (quickly solved ones)."""
    result = []
    for _ in range(count):
        w, h = rng.choice([s for s in shapes if s[0] * s[1] <= 9])
        num, _ = gen.unique_puzzle(w, h, rng, tries=rng.choice([None, (w * h) ** 2 // 2]))
        result.append((w, h, num))
    return result


class Writer(object):
    """Draws commands."""
    def __init__(self, rng, shapes):
        self.rng = rng
        self.shapes = shapes
        self.n = max(w * h for w, h in shapes)
        self.top = min(w * h for w, h in shapes)
        self.few = [(rng.randrange(self.top), rng.randrange(self.top)) for _ in range(3)]

    def field(self):
        rng = self.rng
        if rng.random() < 0.3:
            r, c = rng.choice(self.few)
        elif rng.random() < 0.9:
            r, c = rng.randrange(self.top), rng.randrange(self.top)
        else:
            r, c = rng.randint(0, self.n), rng.randint(0, self.n)
        return {"r": r, "c": c}

    def some(self):
        return sorted(self.rng.sample(range(1, self.top + 1),
                                      self.rng.randint(0, min(4, self.top))))

    def sep(self):
        return list(self.rng.choice(["", ",", "/", " ", "-", "\n", "--", ";", "#", "=", "a=b"]))

    def decode(self, num=None, w=None, h=None):
        rng = self.rng
        if num is None:
            w, h = rng.choice(self.shapes)
            n = w * h
            k = rng.randrange(3)
            num = [0] * (n * n) if k == 0 else gen.noise(w, h, rng, 0.4, None)
        # numbers fit on every board used
        n = w * h
        o = dict(OPTIONS)
        if n > 9 or rng.random() < 0.4:
            o["nsep"] = [rng.choice([" ", "/", "-"])]
        if rng.random() < 0.3:
            o["empty"] = rng.choice([".", "*", "x", "="])
        from_len = gen_shape(n * n)
        if from_len != (w, h) or rng.random() < 0.3:
            o["box"] = [w, h]
        sep = "".join(o["nsep"])
        t = sep.join(str(v) if v else o["empty"] for v in num)
        if rng.random() < 0.3:
            t += "|" + ",".join(sep.join(str(v) for v in self.some())
                                for _ in range(n * n))
        return {"op": "decode", "t": list(t), "o": o}

    def command(self, op):
        rng = self.rng
        c = {"op": op}
        if op == "set":
            c.update(self.field())
            c["v"] = rng.randint(0, self.top)
        elif op in ("set_candidates", "remove_candidates"):
            c.update(self.field())
            c["s"] = self.some()
        elif op in ("get", "get_candidates"):
            c.update(self.field())
        elif op == "init_candidates":
            c["filled"] = rng.random() < 0.4
        elif op == "encode":
            c["rowsep"], c["colsep"], c["cand"] = self.sep(), self.sep(), rng.random() < 0.5
        elif op == "view":
            c["cand"], c["right"] = rng.random() < 0.7, rng.random() < 0.6
            c["nosep"] = rng.random() < 0.5
            c["sep"] = [] if c["nosep"] else list(rng.choice(["", ",", "/", "="]))
            c["prefix"] = list(rng.choice(["*", "", "?", "c:", "="]))
        elif op == "help":
            c["names"] = [list(x) for x in rng.choice(
                [help_of(rng.choice(NAMES)), help_of(rng.choice(NAMES)), NAMES])]
        elif op == "pop":
            c["last"] = rng.random() < 0.5
            c["i"] = 0 if c["last"] else rng.choice([0, 0, 1, 2, 3, -1])
        elif op == "new":
            c["w"], c["h"] = rng.choice(self.shapes)
        elif op == "loop":
            c["n"] = rng.choice([1, 2, 3, 4, 2, 3, 0, -1])
        elif op == "decode":
            return self.decode()
        elif op == "generate":
            c["w"], c["h"] = rng.choice([s for s in self.shapes if s[0] * s[1] <= 9])
            f = (c["w"] * c["h"]) ** 2
            c["least"] = rng.choice([0, f // 2, f])
            c["sym"] = rng.choice(["none", "rotate-90", "rotate-180", "mirror-x",
                                   "mirror-y", "mirror-xy"])
        elif op == "template":
            c["tries"] = rng.choice([1, 2, 3, 5])
        return c


def gen_shape(count):
    k = int(round(count ** 0.5))
    if k * k != count:
        return None
    q = int(round(k ** 0.5))
    if q * q == k:
        return (q, q)
    for x in range(2, k):
        if k % x == 0:
            return (x, k // x)
    return None


NAMES = ["new", "decode", "generate", "generate_from_template", "get", "set",
         "get_candidates", "set_candidates", "remove_candidates", "init_candidates",
         "encode", "print", "clear", "view", "solve", "loop", "stack", "push", "pop",
         "help", "exit"]
ARGUMENTS = {
    "new": "box_size", "get": "row col", "set": "row col value",
    "decode": "s empty number_sep sudoku_sep candidate_sep box_size",
    "generate": "min_count symmetry box_size", "generate_from_template": "tries",
    "get_candidates": "row col", "set_candidates": "row col value",
    "remove_candidates": "row col value", "init_candidates": "filled_only",
    "encode": "row_sep col_sep include_candidates",
    "view": "include_candidates number_sep candidate_prefix align_right",
    "loop": "n", "pop": "position", "help": "command"}


def help_of(name):
    """What the help of a command has to name: itself and its arguments."""
    return [name] + ARGUMENTS.get(name, "").split()


PLAIN = (["set"] * 6 + ["set_candidates"] * 3 + ["remove_candidates"] * 3 +
         ["init_candidates"] * 2 + READERS + ["push"] * 4 + ["pop"] * 4 +
         ["new", "decode", "decode", "view", "print", "encode", "get", "get_candidates"])
SHAPES = [[(3, 3)], [(3, 3)], [(3, 3), (2, 2)], [(3, 3), (2, 2), (2, 3)], [(3, 3), (1, 2)],
          [(3, 3), (2, 1), (1, 3)], [(3, 3), (3, 2), (5, 2)], [(3, 3), (1, 1)]]


def random_history(rng, length, errors, loops, special=True):
    """Lines of commands: a list of lists."""
    w = Writer(rng, rng.choice(SHAPES))
    uniq = unique_texts(rng, w.shapes) if special else []
    lines = []
    left = 0            # commands still to come in a loop body
    body_line = []

    def extra():
        x = rng.random()
        if errors and x < errors:
            return rng.choice(["fail", "fail", "bad", "bad", "loop fail", "exit fail",
                               "pop", "set"])
        return None
    while len(lines) < length:
        if loops and rng.random() < loops:
            n = rng.choice([1, 2, 3, 2, 3, 4, 0, -2] if errors else [1, 2, 3, 4, 2, 3])
            line = [{"op": "loop", "n": n}]
            for _ in range(rng.randint(0, 5)):
                if rng.random() < 0.4:
                    lines.append(line)
                    line = []
                e = extra()
                if e is None and errors and rng.random() < 0.05:
                    e = "loop"
                line.append(w.command(e or rng.choice(PLAIN)))
            if uniq and rng.random() < 0.15:
                a, b, num = rng.choice(uniq)
                line += [w.decode(num, a, b), {"op": "solve"}]
            if errors and rng.random() < 0.1:
                line.append({"op": "exit"})
                lines.append(line)
                continue
            line.append({"op": "loop end"})
            lines.append([c for c in line])
            continue
        if special and rng.random() < 0.12:
            k = rng.randrange(6)
            if k == 0:
                lines.append([w.command("help")])
            elif k == 1:
                lines.append([w.command("generate")])
            elif k == 2:
                lines.append([w.command("generate")])
                lines.append([w.command("template")])
            elif k == 3:
                lines.append([{"op": "clear"}])
            elif k == 4 and uniq:
                a, b, num = rng.choice(uniq)
                lines.append([w.decode(num, a, b), {"op": "solve"}, w.command("print")])
            else:
                lines.append([w.command("new"), {"op": "solve"}] +
                             [w.command(rng.choice(READERS))])
            continue
        if special and rng.random() < 0.04:
            lines.append([{"op": "solve"}])
            continue
        line = [w.command(extra() or rng.choice(PLAIN))]
        if loops and rng.random() < 0.02:
            line.append({"op": "exit"})
        while rng.random() < 0.3:
            line.append(w.command(extra() or rng.choice(PLAIN)))
        lines.append(line)
    return [l for l in lines if l]


def write_lines(lines, rng, table):
    """One text for each line; table gets the meanings."""
    result = []
    for line in lines:
        parts = []
        for c in line:
            t = render(c, rng)
            if t in table and table[t] != c:
                # the same text for something else: never
                raise ValueError("ambiguous text %r" % t)
            table[t] = c
            parts.append(t)
        t = parts[0]
        for p in parts[1:]:
            t += rng.choice([";", "; ", " ; ", " ;"]) + p
        result.append(t)
    return result


def noisy(texts, rng, amount, crlf=False):
    """The same commands with another layout: lines without their newline."""
    out = []

    def blank():
        return rng.choice(["", " ", "  ", "\t", " \t "]) if rng.random() < amount else ""

    def comment():
        return rng.choice(["#", " # note", "\t# set 0 0 1; new", "# back\\slash", "#\\"]) \
            if rng.random() < amount else ""
    for t in texts:
        while rng.random() < amount:
            out.append(blank() + comment())
        pieces = [t]
        while rng.random() < amount and len(pieces[-1]) > 2:
            last = pieces.pop()
            i = rng.randint(1, len(last) - 1)
            if last[i] in " \t":
                i += 1
            if i >= len(last):
                pieces.append(last)
                break
            pieces += [last[:i], last[i:]]
        for p in pieces[:-1]:
            out.append(blank() + p + "\\" + blank() + comment())
        out.append(blank() + pieces[-1] + blank() + comment())
    return out


# ---------------------------------------------------------------------------
# running

def board_of(shell):
    from sudokutools.sudoku import Sudoku
    if isinstance(getattr(shell, "sudoku", None), Sudoku):
        return shell.sudoku
    for v in vars(shell).values():
        if isinstance(v, Sudoku):
            return v
    return None


def stack_of(shell):
    if hasattr(shell, "stack"):
        return list(shell.stack)
    for k, v in vars(shell).items():
        if "stack" in k and isinstance(v, list):
            return list(v)
    return []


# modules of the code under test which know nothing of the shell
BELOW = ("sudoku.py", "solve.py", "dlx.py", "generate.py", "coordinates.py", "analyze.py",
         "solvers.py", "notation.py", "actions.py")


class Feed(object):
    """Input and output of a shell: takes notes between two lines.

    hits tells when the user presses Ctrl-C: for each line "" (never), "prompt" (instead of
    typing the line), ["write", k] (at the k-th text written while the line is run) or
    ["code", k] (at the k-th line of code executed below the shell).
    """
    def __init__(self, lines, hits=None, tty=True):
        self.lines = lines
        self.tty = tty
        self.opening = self.rest = ""
        self.hits = hits or [""] * len(lines)
        self.armed, self.left, self.hit = "", 0, ""
        self.at = 0
        self.text = io.StringIO()
        self.errors = io.StringIO()
        self.shell = None
        self.seen = []
        self.last = None

    def isatty(self):
        return self.tty

    def write(self, s):
        # a prompt ends no line
        if self.armed == "write" and s and not s.endswith("> "):
            self.press()
        return self.text.write(s)

    def press(self):
        self.left -= 1
        if self.left == 0:
            self.armed, self.hit = "", "running"
            raise KeyboardInterrupt()

    def trace(self, frame, event, arg):
        """Called for every line of code, once set up."""
        if event == "call":
            name = frame.f_code.co_filename
            return self.trace if self.armed == "code" and name.startswith(REPO) \
                and os.path.basename(name) in BELOW else None
        if event == "line" and self.armed == "code" and sys.exc_info()[0] is None:
            self.press()
        return self.trace

    def flush(self):
        pass

    def note(self, gone):
        # without the header and the prompt, which ends no line
        out = self.text.getvalue()
        self.text.seek(0)
        self.text.truncate()
        err = self.errors.getvalue()
        self.errors.seek(0)
        self.errors.truncate()
        self.rest = ""
        if gone in ("", "left"):
            cut = out.rfind("\n")
            out, self.rest = out[:cut + 1], out[cut + 1:]
        errs = sum(1 for l in err.split("\n") if l.startswith("Error:"))
        if err and not errs:
            errs = 1
        b = snap(board_of(self.shell))
        st = [snap(s) for s in stack_of(self.shell)]
        if self.at:
            self.seen.append({
                "line": chars(self.lines[self.at - 1]), "out": chars(out), "err": errs,
                "b": [] if self.last and self.last[0] == b else [b],
                "same": bool(self.last) and self.last[1] == st,
                "stack": [] if self.last and self.last[1] == st else st,
                "known": [], "gone": gone, "hit": self.hit, "raw": out[:200], "told": err[:200],
                "prompt": chars(self.rest)})
            self.before.append((self.last or (b, st))[0])
            self.now.append(b)
        else:
            self.before, self.now = [], []
            self.opening, self.asked = out, self.rest
        self.last = (b, st)

    def readline(self):
        self.armed = ""
        self.note("")
        self.hit = ""
        if self.at == len(self.lines):
            self.at += 1
            return ""
        self.at += 1
        h = self.hits[self.at - 1]
        if h == "prompt":
            self.hit = h
            raise KeyboardInterrupt()
        if h:
            self.armed, self.left = h
        return self.lines[self.at - 1] + "\n"


def run_shell(lines, live, table, hits=None, tty=True):
    """What was seen after each line, how the shell ended and its feed."""
    from sudokutools.shell import Shell
    feed = Feed(lines, hits, tty)
    stdout, stderr = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), feed.errors
    ended = ""
    try:
        feed.shell = Shell(interactive=live, infile=feed, outfile=feed)
        try:
            if any(h and h[0] == "code" for h in feed.hits):
                sys.settrace(feed.trace)
            feed.shell.run()
            ended = "left"
        except SystemExit as e:
            ended = "status %s" % e.code
        except (Exception, KeyboardInterrupt) as e:
            ended = "raised %s" % type(e).__name__
    finally:
        sys.settrace(None)
        feed.armed = ""
        sys.stdout, sys.stderr = stdout, stderr
    if 0 < feed.at <= len(lines):
        feed.note(ended)
    # witnesses for solve
    for i, l in enumerate(feed.seen):
        if "solve" not in lines[i] and "loop end" not in lines[i]:
            continue
        for b in [feed.now[i], feed.before[i]] + table_boards(lines[i], table):
            if 0 in b["num"] and all(0 <= v <= b["w"] * b["h"] for v in b["num"]) \
                    and len(l["known"]) < 4:
                s = gen.solutions(b["w"], b["h"], b["num"], 1, None, 20000)
                if s and s[0] not in l["known"]:
                    l["known"].append(s[0])
    return feed.seen, ended, feed


def table_boards(line, table):
    """Boards decoded in commands of the table."""
    result = []
    for c in table.values():
        if c["op"] == "decode":
            o = c["o"]
            t = "".join(c["t"]).split(o["ssep"])[0]
            items = t.split(o["nsep"][0]) if o["nsep"] else list(t)
            box = o["box"] or gen_shape(len(items))
            try:
                num = [0 if x == o["empty"] else int(x) for x in items]
            except ValueError:
                continue
            if box and len(num) == (box[0] * box[1]) ** 2:
                result.append({"w": box[0], "h": box[1], "num": num})
    return result


def sizes_of(table, extra=()):
    s = {(3, 3)} | set(extra)
    for c in table.values():
        if c["op"] in ("new", "generate"):
            s.add((c["w"], c["h"]))
        if c["op"] == "decode":
            o = c["o"]
            if o["box"]:
                s.add(tuple(o["box"]))
            t = "".join(c["t"]).split(o["ssep"])[0]
            x = gen_shape(len(t.split(o["nsep"][0])) if o["nsep"] else len(t))
            if x:
                s.add(x)
    return [list(x) for x in sorted(s)]


def table_list(table):
    return [{"t": chars(t), "c": c} for t, c in sorted(table.items())]


class Shells(Property):
    judge = "JudgeShell"
    assumptions = ASSUMED

    def models(self, tier):
        return [("MCShell", "MCShell.cfg" if tier == "quick" else "WShell.cfg",
                 {"timeout": 1500})]

    def case(self, kind, lines, rng, live=True, noise=0.0):
        table = {}
        texts = write_lines(lines, rng, table)
        if noise:
            texts = noisy(texts, rng, noise)
        return {"kind": kind, "lines": texts, "table": [[t, c] for t, c in sorted(table.items())],
                "live": live, "cost": len(texts), "limit": 120}

    def run(self, case):
        table = dict((t, c) for t, c in case["table"])
        seen, ended, _ = run_shell(case["lines"], case["live"], table, case.get("hits"))
        return {"kind": "lines", "lines": seen, "ended": ended, "live": case["live"],
                "table": table_list(table), "sizes": sizes_of(table)}

    def measure(self, cases, records):
        count = {}
        for c in cases:
            for t, x in c.get("table", []):
                count[x["op"]] = count.get(x["op"], 0) + 1
        return {"commands": count,
                "errors reported": sum(l["err"] for r in records for l in r.get("lines", []))}

    def from_spec(self, count, seed, rng):
        made, _ = histories("MCShell", "GenShell.cfg", count, 50, seed)
        result = []
        for h in made:
            lines = []
            for c in h:
                # some commands share a line
                # one way to say it
                if c["op"] == "view" and c["nosep"]:
                    c = dict(c, sep=[])
                if c["op"] == "pop" and c["last"]:
                    c = dict(c, i=0)
                if lines and rng.random() < 0.25 and not (
                        {"help", "solve"} & {c["op"], lines[-1][-1]["op"]}):
                    lines[-1].append(c)
                else:
                    lines.append([c])
            result.append(lines)
        return result


class C23(Shells):
    id = "C23"

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        for lines in self.from_spec(60 if quick else 1200, seed, rng):
            lines = [[c for c in l if c["op"] not in ("fail", "bad", "loop fail")]
                     for l in lines]
            result.append(self.case("spec behaviour", [l for l in lines if l], rng))
        for _ in range(90 if quick else 1500):
            result.append(self.case("random history",
                                    random_history(rng, rng.choice([10, 25, 40]), 0, 0.03), rng))
        for deep in ([20, 45] if quick else [20, 45, 70, 130]):
            # many boards on the stack
            w = Writer(rng, [(2, 2), (2, 1)])
            lines = []
            for i in range(deep):
                lines += [[dict(w.command("set"), r=i % 2, c=i // 2 % 2, v=i % 3)], [{"op": "push"}]]
            for _ in range(deep // 4):
                lines += [[{"op": "stack"}], [dict(w.command("pop"), last=False, i=rng.randrange(deep // 2))],
                          [{"op": "encode", "rowsep": [], "colsep": [], "cand": False}]]
            for _ in range(deep - deep // 4):
                lines += [[dict(w.command("pop"), last=True, i=0)]]
            lines += [[{"op": "encode", "rowsep": [], "colsep": [], "cand": False}], [{"op": "stack"}]]
            result.append(self.case("deep stack", [[{"op": "new", "w": 2, "h": 2}]] + lines, rng))
        for name in NAMES:
            result.append(self.case("help", [[{"op": "help", "names": [list(x) for x in help_of(name)]}]], rng))
        return result


class C24(Shells):
    id = "C24"

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        for lines in self.from_spec(40 if quick else 800, seed + 1, rng):
            result.append(self.case("spec behaviour", lines, rng))
        for _ in range(80 if quick else 1500):
            result.append(self.case("random history",
                                    random_history(rng, rng.choice([15, 30]), 0.35, 0.1), rng))
        for _ in range(60 if quick else 800):
            # not interactive: the first error is the last one
            h = random_history(rng, rng.choice([6, 12]), rng.choice([0, 0.1, 0.2]), 0.1)
            result.append(self.case("not interactive", h, rng, live=False))
        w = Writer(rng, [(3, 3)])
        for texts, op in ((FAIL, "fail"), (BAD, "bad"), (LOOPFAIL, "loop fail"),
                          (EXITFAIL, "exit fail")):
            for t in sorted(set(texts)):
                for place in range(3):
                    # alone, within a loop, in the middle of a line
                    pre = [w.command("set"), w.command("push"), w.command("init_candidates")]
                    rng.shuffle(pre)
                    table = {}
                    lines = write_lines([[c] for c in pre], rng, table)
                    table[t] = {"op": op}
                    more = write_lines([[w.command("set")], [{"op": "stack"}],
                                        [w.command("set_candidates")]], rng, table)
                    if place == 0:
                        lines += [t] + more
                    elif place == 1:
                        table["loop 2"] = {"op": "loop", "n": 2}
                        table["loop end"] = {"op": "loop end"}
                        lines += ["loop 2", more[0], t, more[1], "loop end", more[2]]
                    else:
                        lines += [more[0] + "; " + t + ";" + more[1], more[2]]
                    if place == 2 and rng.random() < 0.5:
                        live = False
                    else:
                        live = True
                    result.append({"kind": "each failure", "lines": lines, "live": live,
                                   "table": [[a, b] for a, b in sorted(table.items())],
                                   "cost": len(lines), "limit": 60})
        return result


class C25(Shells):
    id = "C25"
    assumptions = ASSUMED + [
        "Scripts contain no generate, and solve only for puzzles with one solution; "
        "no continued line at the end of the input."]

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        for _ in range(90 if quick else 1200):
            result.append(self.case(
                "loops", random_history(rng, rng.choice([12, 25]), rng.choice([0, 0, 0.2]),
                                        0.4, special=rng.random() < 0.5), rng,
                live=rng.random() < 0.8, noise=rng.choice([0, 0.2, 0.4])))
        for n in ([55, 120] if quick else [55, 120, 260, 520]):
            # loops of many rounds
            w = Writer(rng, [(2, 2)])
            result.append(self.case("long loop", [
                [{"op": "new", "w": 2, "h": 2}], [{"op": "loop", "n": n}],
                [dict(w.command("set"), r=0, c=1, v=2)], [{"op": "push"}], [{"op": "stack"}],
                [{"op": "loop end"}], [{"op": "stack"}],
                [{"op": "encode", "rowsep": [], "colsep": [], "cand": False}]], rng))
        for _ in range(90 if quick else 1500):
            h = random_history(rng, rng.choice([3, 8, 14]), rng.choice([0, 0, 0, 0.08]), 0.2,
                               special=False)
            # every script shows its board and its stack at the end
            w = Writer(rng, [(3, 3)])
            if rng.random() < 0.3:
                a, b, num = unique_texts(rng, [(3, 3), (2, 2), (2, 3), (1, 3)], 1)[0]
                # only numbers are shown after solving
                h += [[w.decode(num, a, b), {"op": "solve"}],
                      [{"op": "encode", "rowsep": ["/"], "colsep": [], "cand": False}]]
            elif rng.random() < 0.2:
                h += [[{"op": "exit"}]]
            else:
                h += [[w.command("print"), {"op": "stack"}],
                      [{"op": "encode", "rowsep": [], "colsep": ["-"], "cand": True}]]
            table = {}
            texts = write_lines(h, rng, table)
            self.script(result, rng, texts, table)
        for k in range(2):
            result.append({"kind": "missing", "channel": "missing", "lines": ["x"] * k, "table": []})
        return result

    def script(self, result, rng, texts, table):
        pairs = [[t, c] for t, c in sorted(table.items())]
        for channel in ("file", "stdin", "-c"):
            if channel == "-c":
                text = texts[0]
                for t in texts[1:]:
                    text += rng.choice([";", "; ", " ; "]) + t
                result.append({"kind": "script", "channel": channel, "lines": [text],
                               "table": pairs})
            else:
                result.append({
                    "kind": "script", "channel": channel, "table": pairs,
                    "lines": noisy(texts, rng, rng.choice([0, 0.15, 0.4])),
                    "ending": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.7,
                    "both": rng.choice([0, 0, 0, 1, 2]) if channel == "file" else 0})

    def run(self, case):
        if "channel" not in case:
            return Shells.run(self, case)
        table = dict((t, c) for t, c in case["table"])
        channel = case["channel"]
        d = tempfile.mkdtemp(dir=scratch())
        args, data = [sys.executable, "-m", "sudokutools"], b""
        if channel == "-c":
            args += ["-c", case["lines"][0]]
        elif channel == "missing":
            args += [os.path.join(d, "nothing") if case["lines"] else d]
        else:
            text = case["ending"].join(case["lines"]) + (case["ending"] if case["last"] else "")
            data = text.encode()
            if channel == "file":
                path = os.path.join(d, "script")
                with open(path, "wb") as f:
                    f.write(data)
                args += [path]
                if case.get("both"):
                    # not to be run, a file goes first
                    args += ["-c", "set 0 0 9; print; foo"]
                    if case["both"] == 2:
                        args = args[:3] + args[4:] + [path]
                data = b"set 0 0 9\nprint\n"        # not to be read
        p = subprocess.run(args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=child_env(), cwd=d, timeout=60)
        out, err = p.stdout.decode(), p.stderr.decode()
        errs = sum(1 for l in err.split("\n") if l.startswith("Error:"))
        return {"kind": "whole", "channel": channel, "input": [chars(l) for l in case["lines"]],
                "text": chars(case["lines"][0]) if case["lines"] else [],
                "out": chars(out), "err": max(errs, 1 if err else 0), "status": p.returncode,
                "told": bool(err), "table": table_list(table), "sizes": sizes_of(table),
                "raw": out[-300:], "message": err[-300:]}


def continued(t):
    return t.split("#")[0].strip().endswith("\\")


class C28(Shells):
    id = "C28"
    assumptions = ASSUMED + [
        "Ctrl-C arrives while the shell waits for a line, writes a result or runs code below "
        "the shell (of the modules %s), not between two statements of the shell itself."
        % ", ".join(BELOW),
        "It is raised as KeyboardInterrupt by a stand-in for the terminal or by a trace "
        "function, not by a signal."]

    def models(self, tier):
        return [("MCInterrupt", "MCInterrupt.cfg" if tier == "quick" else "WInterrupt.cfg",
                 {"timeout": 1500})]

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        made = self.from_spec(60 if quick else 800, seed + 2, rng)
        for _ in range(300 if quick else 4000):
            made.append(random_history(rng, rng.choice([8, 20]), rng.choice([0, 0.1]),
                                       rng.choice([0.05, 0.3]), special=False))
        for lines in made:
            c = self.case("interrupts", lines, rng, live=rng.random() < 0.85,
                          noise=rng.choice([0, 0, 0.15, 0.3]))
            lines, c["lines"], c["hits"] = c["lines"], [], []
            skip = going_on = False
            for t in lines:
                if skip:
                    # the rest of a line which is not typed to its end
                    skip = continued(t)
                    going_on = False
                    continue
                x = rng.random()
                if x < (0.3 if going_on else 0.08):
                    c["lines"].append("")
                    c["hits"].append("prompt")
                    if going_on:
                        skip = continued(t)
                        going_on = False
                        continue
                c["lines"].append(t)
                going_on = continued(t)
                if x > 0.85:
                    c["hits"].append(["code", int(2 ** rng.uniform(0, 11))])
                elif x > 0.73:
                    c["hits"].append(["write", rng.choice([1, 1, 2, 3, 5])])
                else:
                    c["hits"].append("")
            result.append(c)
        for _ in range(20 if quick else 300):
            result.append(self.long_work(rng))
        return result

    def long_work(self, rng):
        """Interrupted while solving or generating."""
        w = Writer(rng, [(3, 3), (2, 3)])
        a, b, num = rng.choice(unique_texts(rng, w.shapes, 2))
        some = [w.command(rng.choice(PLAIN)) for _ in range(3)]
        lines = [[w.decode(num, a, b)], [{"op": "push"}], [some[0]],
                 [{"op": rng.choice(["solve", "solve", "generate", "template"])}],
                 [some[1]], [{"op": "stack"}], [{"op": "pop", "last": True, "i": 0}], [some[2]],
                 [{"op": "print"}]]
        for l in lines:
            if l[0]["op"] in ("generate", "template"):
                l[0] = w.command(l[0]["op"])
        c = self.case("long work", lines, rng, live=rng.random() < 0.8)
        c["hits"] = ["" if i != 3 else ["code", int(2 ** rng.uniform(0, 17))]
                     for i in range(len(lines))]
        return c

    def measure(self, cases, records):
        m = Shells.measure(self, cases, records)
        lines = [l for r in records for l in r.get("lines", [])]
        m["interrupted at the prompt"] = sum(l["hit"] == "prompt" for l in lines)
        m["interrupted while running"] = sum(l["hit"] == "running" for l in lines)
        m["sessions ended by an interrupt"] = sum(
            l["hit"] != "" and l["gone"] != "" for l in lines)
        return m


class C31(Shells):
    id = "C31"
    judge = "JudgeDialogue"
    judge_cfg = JUDGE_CFG.replace("NEXT Next", "NEXT TalkNext")
    assumptions = ASSUMED + [
        "At a real (pseudo) terminal no help is asked for, no puzzle with several solutions is "
        "solved and nothing is generated."]

    def models(self, tier):
        return [("MCDialogue", "MCDialogue.cfg" if tier == "quick" else "WDialogue.cfg",
                 {"timeout": 1500})]

    def cases(self, rng, tier, seed):
        quick = tier == "quick"
        result = []
        made = self.from_spec(40 if quick else 600, seed + 3, rng)
        for _ in range(110 if quick else 2000):
            made.append(random_history(rng, rng.choice([8, 20]), rng.choice([0, 0, 0.2]),
                                       rng.choice([0.1, 0.4]), special=False))
        for lines in made:
            choice = rng.choice([None, None, None, True, True, False])
            tty = rng.random() < 0.7
            live = tty if choice is None else choice
            c = self.case("session", lines, rng, live=live, noise=rng.choice([0, 0, 0.2]))
            c["choice"], c["tty"] = choice, tty
            c["hits"] = ["" for _ in c["lines"]]
            for i in range(len(c["lines"])):
                x = rng.random()
                if i and continued(c["lines"][i - 1]):
                    continue
                if live and x < 0.05 and not continued(c["lines"][i]):
                    c["lines"][i], c["hits"][i] = "", "prompt"
                elif live and x < 0.12:
                    c["hits"][i] = ["write", rng.choice([1, 1, 2, 3])]
            result.append(c)
        for _ in range(40 if quick else 500):
            h = random_history(rng, rng.choice([3, 8, 14]), rng.choice([0, 0.2, 0.2]), 0.3,
                               special=False)
            h = [l for l in ([c for c in l if c["op"] not in ("help", "clear")] for l in h) if l]
            w = Writer(rng, [(3, 3)])
            h += rng.choice([[], [[w.command("print"), {"op": "stack"}]], [[{"op": "exit"}]],
                             [[w.command("stack"), {"op": "exit"}, w.command("stack")]]])
            table = {}
            lines = noisy(write_lines(h, rng, table), rng, rng.choice([0, 0.2]))
            # what a terminal keeps until it is read
            while sum(len(l) + 1 for l in lines) > 3000 or (lines and continued(lines[-1])):
                lines.pop()
            result.append({"kind": "terminal", "lines": lines, "limit": 120,
                           "table": [[t, c] for t, c in sorted(table.items())]})
        return result

    def run(self, case):
        import sudokutools
        table = dict((t, c) for t, c in case["table"])
        if case["kind"] != "terminal":
            seen, ended, feed = run_shell(case["lines"], case["choice"], table, case["hits"],
                                          case["tty"])
            return {"kind": "lines", "lines": seen, "ended": ended, "live": case["live"],
                    "opening": chars(feed.opening), "asked": chars(feed.asked),
                    "closing": chars(feed.text.getvalue()),
                    "version": chars(sudokutools.__version__),
                    "table": table_list(table), "sizes": sizes_of(table)}
        out, err, status = at_terminal(case["lines"])
        errs = sum(1 for l in err.split("\n") if l.startswith("Error:"))
        return {"kind": "terminal", "input": [chars(l) for l in case["lines"]], "intro": 2,
                "out": chars(out), "err": max(errs, 1 if err else 0), "status": status,
                "version": chars(sudokutools.__version__),
                "table": table_list(table), "sizes": sizes_of(table),
                "raw": out[-300:], "message": err[-300:]}

    def measure(self, cases, records):
        m = Shells.measure(self, cases, records)
        m["sessions"] = {"interactive": sum(r.get("live", False) for r in records),
                         "not interactive": sum(not r.get("live", True) for r in records),
                         "at a terminal": sum(r["kind"] == "terminal" for r in records)}
        m["prompts"] = sum(len(r.get("lines", r.get("input", []))) for r in records)
        return m


def at_terminal(lines):
    """Output, errors and status of the program with these lines typed at a terminal."""
    import pty
    import termios
    master, slave = pty.openpty()
    try:
        mode = termios.tcgetattr(slave)
        mode[3] &= ~(termios.ECHO | termios.ISIG)
        termios.tcsetattr(slave, termios.TCSANOW, mode)
        d = tempfile.mkdtemp(dir=scratch())
        p = subprocess.Popen([sys.executable, "-m", "sudokutools"], stdin=slave,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=child_env(), cwd=d)
        # with the end of the input
        os.write(master, "".join(l + "\n" for l in lines).encode() + b"\x04")
        out, err = p.communicate(timeout=60)
        return out.decode(), err.decode(), p.returncode
    finally:
        os.close(slave)
        os.close(master)
