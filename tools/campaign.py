#!/usr/bin/env python3
"""Development aid: plants every small fault of mutate.py in memory, runs the checks whose evidence lists the function
(all of them when none does) until one notices, and lists the faults nobody notices.   campaign.py [--files substr] [--limit N]"""

import ast
import json
import multiprocessing as mp
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutate  # noqa: E402
from sa import core  # noqa: E402

LAST = ["P31", "P30"]


def one(a):
    props, path, rel, qual, k = a
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    fn, cls, attrs = mutate.find(tree, qual)
    for i, (ln, desc, ap) in enumerate(mutate.mutants(fn, attrs)):
        if i == k:
            ap()
            break
    ast.fix_missing_locations(tree)
    tree = ast.parse(ast.unparse(tree))
    seen = []
    for p in props:
        r = mutate.run_prop(p, None, tree, rel, path, src)[0]
        if r == "caught":
            return rel, qual, ln, desc, "caught", p
        if r != "quiet":
            seen.append(p + ":" + r)
    return rel, qual, ln, desc, "missed", ",".join(seen)


def main():
    arg = lambda n, d=None: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d  # noqa: E731
    sub, limit = arg("--files"), int(arg("--limit", 10 ** 9))
    cover, allp, cost = {}, [], {}
    for f in sorted(os.listdir(os.path.join(V, "evidence"))):
        if f.endswith(".json"):
            ev = json.load(open(os.path.join(V, "evidence", f)))
            p = f[:-5]
            allp.append(p)
            cost[p] = ev["wall_s"]
            for q in ev["coverage"]["functions_analysed"]:
                cover.setdefault(q.split("=")[0].split("#")[0].split("@")[0], []).append(p)
    allp.sort(key=lambda p: (p in LAST, cost[p]))
    repo = core.get_repo()
    jobs = []
    for m in repo.modules.values():
        if sub and sub not in m.rel:
            continue

        def go(body, prefix, cls):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    go(s.body, prefix + "." + s.name, s)
                elif isinstance(s, ast.FunctionDef):
                    q = m.name + prefix + "." + s.name
                    attrs = set() if cls is None else {x.attr for x in ast.walk(cls) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
                    mine = set(cover.get(q, ()))
                    ps = [p for p in allp if p in mine] if mine - set(LAST) else allp
                    for k in range(len(list(mutate.mutants(s, attrs)))):
                        jobs.append((ps, m.path, m.rel, (prefix + "." + s.name, s.lineno), k))
        go(ast.parse(m.src).body, "", None)
    random.Random(1).shuffle(jobs)
    jobs = jobs[:limit]
    by, missed = {}, []
    with mp.Pool(8, maxtasksperchild=40) as pool:
        for rel, q, ln, desc, r, p in pool.imap_unordered(one, jobs, chunksize=4):
            if r == "caught":
                by[p] = by.get(p, 0) + 1
            else:
                missed.append((rel, ln, q[0], desc, p))
    for x in sorted(missed):
        print("%s:%d %s [%s] %s" % x)
    print(len(jobs), "faults", len(missed), "missed", by)


main()
