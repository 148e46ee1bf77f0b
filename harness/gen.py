"""Boards and puzzles for the cases.  Independent of the code under test; the
solver here only provides witnesses, which TLC checks itself."""


class Geo(object):
    cache = {}

    def __new__(cls, w, h):
        if (w, h) not in cls.cache:
            g = object.__new__(cls)
            n = w * h
            g.w, g.h, g.n = w, h, n
            g.row = [i // n for i in range(n * n)]
            g.col = [i % n for i in range(n * n)]
            g.box = [(i // n // h) * h + (i % n) // w for i in range(n * n)]
            g.units = []
            for f in (g.row, g.col, g.box):
                for k in range(n):
                    g.units.append([i for i in range(n * n) if f[i] == k])
            g.peers = []
            for i in range(n * n):
                g.peers.append(sorted(set(
                    j for j in range(n * n) if j != i and (
                        g.row[i] == g.row[j] or g.col[i] == g.col[j]
                        or g.box[i] == g.box[j]))))
            cls.cache[(w, h)] = g
        return cls.cache[(w, h)]


def conflict_free(w, h, num):
    g = Geo(w, h)
    return all(not num[i] or all(num[j] != num[i] for j in g.peers[i])
               for i in range(len(num)))


def solutions(w, h, num, limit=2, rng=None, budget=None):
    """Up to limit solutions; None if the budget of nodes was used up."""
    g = Geo(w, h)
    n = g.n
    if not conflict_free(w, h, num):
        return []
    full = (1 << n) - 1
    rows, cols, boxes = [full] * n, [full] * n, [full] * n
    num = list(num)
    for i, v in enumerate(num):
        if v:
            b = 1 << (v - 1)
            rows[g.row[i]] &= ~b
            cols[g.col[i]] &= ~b
            boxes[g.box[i]] &= ~b
    found = []
    left = [budget]

    def pick():
        best, mask = None, 0
        size = n + 1
        for i in range(n * n):
            if not num[i]:
                m = rows[g.row[i]] & cols[g.col[i]] & boxes[g.box[i]]
                k = bin(m).count("1")
                if k < size:
                    best, mask, size = i, m, k
                    if k <= 1:
                        return best, [m.bit_length()] if m else []
        if best is None:
            return None, []
        if size > 2:
            # a number with few places in a unit
            for unit in g.units:
                seen = {}
                for i in unit:
                    if not num[i]:
                        m = rows[g.row[i]] & cols[g.col[i]] & boxes[g.box[i]]
                        while m:
                            b = m & -m
                            seen.setdefault(b, []).append(i)
                            m ^= b
                for b, places in seen.items():
                    if len(places) < size:
                        size = len(places)
                        best = (b, places)
            if isinstance(best, tuple):
                return best, None
        return best, [v for v in range(1, n + 1) if mask >> (v - 1) & 1]

    def step():
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                return
        cell, values = pick()
        if cell is None:
            found.append(list(num))
            return
        if values is None:
            b, places = cell
            options = [(i, b.bit_length()) for i in places]
        else:
            options = [(cell, v) for v in values]
        if rng:
            rng.shuffle(options)
        for i, v in options:
            b = 1 << (v - 1)
            num[i] = v
            rows[g.row[i]] ^= b
            cols[g.col[i]] ^= b
            boxes[g.box[i]] ^= b
            step()
            num[i] = 0
            rows[g.row[i]] ^= b
            cols[g.col[i]] ^= b
            boxes[g.box[i]] ^= b
            if len(found) >= limit or (left[0] is not None and left[0] < 0):
                return
    step()
    if left[0] is not None and left[0] < 0 and len(found) < limit:
        return None
    return found


def grid(w, h, rng):
    """A random complete grid."""
    g = Geo(w, h)
    n = g.n
    if n <= 9 and rng.random() < 0.5:
        num = [0] * (n * n)
        values = list(range(1, n + 1))
        rng.shuffle(values)
        for i, v in zip(g.units[rng.randrange(n)], values):
            num[i] = v
        r = solutions(w, h, num, 1, rng, 3000)
        if r:
            return r[0]
    # row r: r % h rows in the band, r // h bands
    rows, cols = [], []
    for band in rng.sample(range(w), w):
        rows += [band * h + k for k in rng.sample(range(h), h)]
    for stack in rng.sample(range(h), h):
        cols += [stack * w + k for k in rng.sample(range(w), w)]
    sym = rng.sample(range(1, n + 1), n)
    return [sym[((r % h) * w + r // h + c) % n] for r in rows for c in cols]


def mask(num, keep):
    return [v if i in keep else 0 for i, v in enumerate(num)]


def random_puzzle(w, h, rng, filled):
    """A grid with all but some fields emptied: always solvable."""
    g = grid(w, h, rng)
    keep = set(rng.sample(range(len(g)), filled))
    return mask(g, keep), g


def unique_puzzle(w, h, rng, tries=None, budget=4000):
    """A uniquely solvable puzzle and its solution."""
    g = grid(w, h, rng)
    num = list(g)
    order = list(range(len(g)))
    rng.shuffle(order)
    if tries is not None:
        order = order[:tries]
    for i in order:
        v = num[i]
        num[i] = 0
        s = solutions(w, h, num, 2, None, budget)
        if s is None or len(s) != 1:
            num[i] = v
    return num, g


def noise(w, h, rng, density, values=None):
    """Random numbers, mostly conflicting."""
    n = w * h
    return [rng.randint(1, n) if rng.random() < density else 0
            for _ in range(n * n)]


def calc(w, h, num):
    g = Geo(w, h)
    n = g.n
    return [[num[i]] if num[i] else
            [v for v in range(1, n + 1) if all(num[j] != v for j in g.peers[i])]
            for i in range(n * n)]


def random_cands(w, h, rng, density=0.3):
    n = w * h
    return [[v for v in range(1, n + 1) if rng.random() < density]
            for _ in range(n * n)]


def thin(cand, num, sols, rng, chance):
    """Remove candidates at random, keeping all the given solutions."""
    keep = [set(s[i] for s in sols) for i in range(len(num))]
    return [list(c) if num[i] else
            [v for v in c if v in keep[i] or rng.random() > chance]
            for i, c in enumerate(cand)]


def broken_full(w, h, rng):
    """A full grid which nearly is a solution: the ways to look right in some
    respects only (rows, columns, boxes, sums, sets of numbers)."""
    g = Geo(w, h)
    n = g.n
    num = grid(w, h, rng)
    kind = rng.randrange(7)
    if n == 1:
        return num
    if kind == 0:
        # two rows exchanged: the boxes may break
        a, b = rng.sample(range(n), 2)
        rows = [num[r * n:r * n + n] for r in range(n)]
        rows[a], rows[b] = rows[b], rows[a]
        num = sum(rows, [])
    elif kind == 1:
        a, b = rng.sample(range(n), 2)
        for r in range(n):
            num[r * n + a], num[r * n + b] = num[r * n + b], num[r * n + a]
    elif kind == 2:
        # two fields of a unit exchanged: the unit stays right
        i, j = rng.sample(rng.choice(g.units), 2)
        num[i], num[j] = num[j], num[i]
    elif kind == 3 and n > 2:
        # two numbers replaced by others of the same sum
        pairs = [(a, b, c, a + b - c) for a in range(1, n + 1)
                 for b in range(a + 1, n + 1) for c in range(1, n + 1)
                 if 1 <= a + b - c <= n and c not in (a, b)]
        if pairs:
            a, b, c, d = rng.choice(pairs)
            num = [c if v == a else d if v == b else v for v in num]
    elif kind == 4:
        # one number instead of another everywhere, or in one unit
        a, b = rng.sample(range(1, n + 1), 2)
        where = rng.choice(g.units) if rng.random() < 0.5 else range(n * n)
        for i in where:
            if num[i] == a:
                num[i] = b
    elif kind == 5:
        # every row the same, or shifted by one: rows or rows and columns right
        k = rng.randrange(2)
        num = [(c + k * r) % n + 1 for r in range(n) for c in range(n)]
        if rng.random() < 0.5:
            num = [num[c * n + r] for r in range(n) for c in range(n)]
    else:
        # boxes right only
        num = [0] * (n * n)
        for u in g.units[2 * n:]:
            for i, v in zip(u, rng.sample(range(1, n + 1), n)):
                num[i] = v
    return num


def fmt(w, h, num):
    n = w * h
    return "\n".join(" ".join(str(v) for v in num[r * n:r * n + n])
                     for r in range(n))


SMALL = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)]
MIDDLE = [(2, 3), (3, 2), (1, 5), (5, 1), (1, 6), (2, 4), (4, 2)]
NORMAL = [(3, 3)]
LARGE = [(5, 2), (2, 5), (3, 4), (4, 3), (2, 6), (6, 2), (4, 4)]
