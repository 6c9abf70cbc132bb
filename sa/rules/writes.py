"""P12/P31: which fields of its own object an operation sets or changes, itself or through the operations it calls on the
same object, against the fields each public operation is there to change (sa/writes.json)."""

import ast
import json
import os

from ..core import VERIF
from .effects import MUTATORS

HERE = os.path.join(VERIF, "sa", "writes.json")


def known_fields():
    with open(os.path.join(VERIF, "sa", "fieldnames.json")) as fh:
        return set(json.load(fh))


class Writes:
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.fields = known_fields()

    def look(self, cls, kind, name, above=None):
        """the function `name` of kind method/getter/setter that an object of class cls has"""
        mro = [c for c in self.repo.mro(cls) if c in self.repo.classes]
        if above is not None:
            mro = mro[mro.index(above) + 1:] if above in mro else []
        for c in mro:
            f = getattr(self.repo.classes[c], kind).get(name)
            if f is not None:
                return f
        return None

    def of(self, cls, f):
        """fields of self the function f sets when called on an object of class cls -> {field: line}"""
        k = (cls, f.qual, f.kind)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = out = {}
        args = f.node.args.posonlyargs + f.node.args.args
        if f.kind in ("staticmethod", "classmethod") or not args:
            return out
        me = args[0].arg
        own = f.cls.qual if hasattr(f.cls, "qual") else f.cls

        def is_me(x):
            return isinstance(x, ast.Name) and x.id == me

        def add(g, line):
            if g is not None and g is not f:
                for n in self.of(cls, g):
                    out.setdefault(n, line)

        def root(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return x

        for n in ast.walk(f.node):
            line = getattr(n, "lineno", f.node.lineno)
            if isinstance(n, ast.Attribute) and is_me(n.value):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    g = self.look(cls, "setters", n.attr)
                    if g is not None:
                        add(g, line)
                    else:
                        out.setdefault(n.attr, line)
                else:
                    add(self.look(cls, "getters", n.attr), line)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root(n)
                if isinstance(r, ast.Attribute) and is_me(r.value) and self.look(cls, "getters", r.attr) is None:
                    out.setdefault(r.attr, line)
            elif isinstance(n, ast.AugAssign):
                r = root(n.target)
                if isinstance(r, ast.Attribute) and is_me(r.value):
                    add(self.look(cls, "getters", r.attr), line)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and is_me(fn.value):
                    add(self.look(cls, "methods", fn.attr), line)
                elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                    add(self.look(cls, "methods", fn.attr, own), line)
                elif isinstance(fn, ast.Attribute) and fn.attr in MUTATORS:
                    r = root(fn.value)
                    if isinstance(r, ast.Attribute) and is_me(r.value) and self.look(cls, "getters", r.attr) is None:
                        out.setdefault(r.attr, line)
                elif isinstance(fn, ast.Name) and fn.id in ("setattr", "delattr") and len(n.args) > 1 and is_me(n.args[0]) and isinstance(n.args[1], ast.Constant):
                    out.setdefault(n.args[1].value, line)
        return out


def public(repo):
    """-> key, class, function of every public operation of every class"""
    for q, c in sorted(repo.classes.items()):
        for kind in ("methods", "setters"):
            for n, f in sorted(getattr(c, kind).items()):
                if n.startswith("_") and not n.startswith("__") and not any(
                        n in repo.classes[b].methods for b in repo.mro(q) if b != q and b in repo.classes):
                    continue                  # a helper of its class; the operations that use it are judged
                if f.kind in ("staticmethod", "classmethod"):
                    continue
                yield "%s.%s%s" % (q, n, "=" if kind == "setters" else ""), q, f


def snapshot(repo):
    w = Writes(repo)
    return {k: sorted(x for x in w.of(q, f) if x in w.fields) for k, q, f in public(repo)}


def decide(ctx, setters):
    w = Writes(ctx.repo)
    with open(HERE) as fh:
        want = json.load(fh)
    n = 0
    for k, q, f in public(ctx.repo):
        if k not in want or (setters and not k.endswith("=")):
            continue
        n += 1
        extra = {x: l for x, l in w.of(q, f).items() if x in w.fields and x not in want[k]}
        ctx.ob("%s.sets" % k.replace("tfchain.", ""), not extra, f.where, lambda: "sets what it has nothing to do with: " +
               ", ".join("%s (line %d)" % kv for kv in sorted(extra.items())))
    ctx.need(n > (60 if setters else 250), "%d operations found" % n)

