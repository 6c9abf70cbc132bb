#!/usr/bin/env python3
"""Development aid: applies each hand-made behaviour-preserving edit of tools/refactorings/*.py to a scratch copy of
/repo and runs every check on it; all have to stay quiet.   quiet.py [substring of the edit's name]"""
import importlib.util
import json
import os
import shutil
import multiprocessing as mp
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    d = os.path.join(V, "tools", "refactorings")
    for n in sorted(os.listdir(d)):
        if n.endswith(".py"):
            s = importlib.util.spec_from_file_location(n[:-3], os.path.join(d, n))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            for e in m.EDITS:
                yield n[:-3] + ":" + e[0], e[1:]


def one(a):
    """every check on one edited copy, in one process"""
    name, r, ids = a
    sys.path.insert(0, V)
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.setrecursionlimit(20000)
    import mutate
    from sa import core
    core.REPO, core._repo = r, None
    out = []
    for i in ids:
        st, msg = mutate.run_prop(i, None, None, None, os.devnull, None)
        if st != "quiet":
            out.append((i, st + " " + msg[:250]))
    return name, out


def main():
    want = sys.argv[1] if len(sys.argv) > 1 else ""
    ids = sorted({c["property_id"] if "property_id" in c else c.get("property", c.get("id")) for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]})
    base = tempfile.mkdtemp(prefix="quiet")
    jobs = []
    for name, edits in load():
        if want not in name:
            continue
        r = os.path.join(base, name.replace(' ', '_').replace('/', '_'))
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        ok = True
        for path, old, new in edits:
            p = os.path.join(r, "tfchain", path)
            s = open(p).read()
            if s.count(old) < 1:
                print("CANNOT APPLY (%d times) %s: %r" % (s.count(old), name, old[:60]))
                ok = False
                break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            compile(s, p, "exec")
        if ok:
            jobs.append((name, r))

    bad = set()
    with mp.Pool(int(os.environ.get("J", "8")), maxtasksperchild=1) as pool:
        for name, out in pool.imap_unordered(one, [(n, r, ids) for n, r in jobs], chunksize=1):
            for i, what in out:
                bad.add(name)
                print(name, i, what, flush=True)
    print("edits %d, with an alarm %d" % (len(jobs), len(bad)))
    shutil.rmtree(base)


main()
