"""Is everything that is observed also judged?

  python harness/selftest.py [ID ...]

Takes records of the quick cases, changes one observed value in each and has
the specification judge them: every change should be rejected.  Tells, for each
part of a record, how many changes were rejected, and what was not.  This is a
test of the checks, not of /repo, and no check uses it.
"""
import copy
import json
import random
import re
import sys

import core
import registry


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            for r in leaves(x[k], path + (k,)):
                yield r
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            for r in leaves(v, path + (i,)):
                yield r
    else:
        yield path, x


def changed(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, 1, -1]) if v > 0 else v + 1
    if isinstance(v, str):
        if len(v) == 1:
            return rng.choice([c for c in "019x, " if c != v])
        return v + "x" if v else "x"
    if isinstance(v, list) and v:
        v = list(v)
        how = rng.randrange(3)
        if how == 0:
            del v[rng.randrange(len(v))]
        elif how == 1:
            v.append(copy.deepcopy(rng.choice(v)))
        else:
            i = rng.randrange(len(v))
            v.insert(i, copy.deepcopy(v[i]))
        return v
    return None


def main(ids):
    for pid in ids or sorted(registry.MODULES):
        prop = registry.load(pid)
        rng = random.Random("self-" + pid)
        cases = prop.cases(rng, "quick", 1)
        rng.shuffle(cases)
        cases = cases[:60]
        records = core.run_cases(prop, cases)
        prop.complete(cases, records)
        made, names = [], []
        for r in records:
            if r["fault"]:
                continue
            groups = {}
            for path, v in leaves(r):
                name = ".".join("*" if isinstance(k, int) else k for k in path)
                if path[-1:] in (("w",), ("h",)) or isinstance(v, list) and (
                        len(v) > 8 or path[-1:] in (("num",), ("cand",), ("calls",)) or
                        any(isinstance(x, dict) for x in v)):
                    continue
                if name in ("w", "h", "kind", "judge", "fault", "raw", "message", "told"):
                    continue
                groups.setdefault(name, []).append((path, v))
            for name in rng.sample(sorted(groups), min(4, len(groups))):
                path, v = rng.choice(groups[name])
                new = changed(rng, v)
                if new is None or new == v or not path:
                    continue
                m = copy.deepcopy(r)
                at = m
                for k in path[:-1]:
                    at = at[k]
                at[path[-1]] = new
                made.append(m)
                names.append((r.get("kind", "") + ":" + name, path, v, new))
        rejected = {}
        # in small parts, one record may be beyond the specification
        try:
            rejected, _ = core.judge(prop.judge, made, prop.judge_cfg, timeout=600)
        except core.CheckError as e:
            print(pid, "no verdict:", str(e)[-400:])
        table = {}
        for i, (name, path, v, new) in enumerate(names):
            t = table.setdefault(name, [0, 0, None])
            t[0] += 1
            if i in rejected:
                t[1] += 1
            elif t[2] is None:
                t[2] = (path, str(v)[:50], str(new)[:50])
        print(pid, "%d of %d changes rejected" % (len(rejected), len(names)))
        for name in sorted(table):
            n, k, example = table[name]
            if k < n:
                print("   %-40s %d of %d   accepted: %s" % (name, k, n, example))
        sys.stdout.flush()


if __name__ == "__main__":
    core.ENOUGH = 10 ** 9
    core.prepare()
    main(sys.argv[1:])
