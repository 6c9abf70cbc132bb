"""P31: what a function may change - effect and alias analysis over every function of the program."""

import ast
import builtins
import json
import os
import re

from ..core import *
from ..lib import *
from .wellformed import FN, COMP, bound, targets, name_of, text_of, binds

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "discard", "add", "difference_update", "intersection_update", "symmetric_difference_update",
            "appendleft", "popleft", "rotate", "__setitem__", "__delitem__", "__setattr__", "__iadd__", "move_to_end"}
SCALAR = {"len", "int", "str", "bool", "float", "isinstance", "issubclass", "hasattr", "hash", "repr", "print", "range", "abs", "round", "ord", "chr", "bin", "hex", "oct", "type", "id", "callable", "format", "bytes", "any", "all", "divmod", "pow",
          "input", "open", "object"}
COPY = {"list", "set", "dict", "tuple", "sorted", "reversed", "enumerate", "zip", "map", "filter", "iter", "frozenset", "bytearray", "deepcopy", "copy"}
INNER = {"get", "pop", "values", "items", "keys", "setdefault", "popitem", "next", "min", "max", "sum", "getattr", "__getitem__"}
STRISH = (set(dir(str)) | set(dir(bytes)) | set(dir(int))) - set(dir(list)) - set(dir(dict)) - set(dir(set)) | {"index", "count", "hex", "decode", "isoformat", "timestamp"}
NO = frozenset()


class Sum:
    """summary: roots a function may change (with places), what it returns"""

    def __init__(self):
        self.eff = {}                     # root -> (module, line, what)
        self.ret, self.fresh, self.inside, self.kinds = NO, False, NO, NO

    def key(self):
        return (frozenset(self.eff), self.ret, self.fresh, self.inside, self.kinds)


class Effects:
    def __init__(self, repo, known=()):
        self.repo, self.known = repo, known or ()
        self.by_name, self.getters, self.setters, self.inst = {}, {}, {}, set()
        for f in repo.funcs.values():
            if f.cls is None:
                continue
            if f.kind == "getter":
                self.getters.setdefault(f.node.name, []).append(f)
            elif f.kind == "setter":
                self.setters.setdefault(f.node.name, []).append(f)
            elif f.kind != "deleter":
                self.by_name.setdefault(f.node.name, []).append(f)
        for c in repo.classes.values():
            for n, f in c.methods.items():
                if f not in self.by_name.setdefault(n, []):
                    self.by_name[n].append(f)
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.inst.add(x.attr)
        with open(os.path.join(VERIF, "sa", "fieldnames.json")) as fh:
            self.fields = set(json.load(fh))
        self.sums = {q: Sum() for q in repo.funcs}
        self.rounds = 0
        while True:
            self.rounds += 1
            changed = False
            for q, f in repo.funcs.items():
                s = Body(self, f).run()
                for r, why in self.sums[q].eff.items():
                    if r in s.eff:
                        s.eff[r] = why    # the first reason found: chains of reasons end at a change
                if s.key() != self.sums[q].key():
                    changed = True
                self.sums[q] = s
            if not changed or self.rounds > 12:
                break


class Body:
    def __init__(self, fx, f):
        self.fx, self.f, self.repo = fx, f, fx.repo
        self.s = Sum()
        self.contents = {}                # fresh site -> roots of what is inside
        self.kinds = {}                   # fresh site -> class of the object made there ("" for objects of the library)
        self.locals = bound(f.node)[0]
        a = f.node.args
        self.params = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        self.env = {}
        for i, p in enumerate(self.params):
            self.env[p] = frozenset(["p:" + p])
        if a.vararg:
            self.env[a.vararg.arg] = self.new(a.vararg, frozenset(["p:" + a.vararg.arg]), "")
        if a.kwarg:
            self.env[a.kwarg.arg] = self.new(a.kwarg, frozenset(["p:" + a.kwarg.arg]), "")
        self.defs, self.common = {}, None
        self.depth = 0

    def run(self):
        self.ends = []
        self.block(self.f.node.body)
        return self.s

    # -- values --
    def new(self, node, inside=NO, kind=None):
        r = "f:%d:%d:%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)
        self.contents[r] = self.contents.get(r, NO) | inside
        if kind is not None:
            self.kinds[r] = kind
        return frozenset([r])

    def load(self, v):
        """what is directly inside a value"""
        out = set()
        for r in v:
            if r.startswith("f:"):
                inside = self.contents.get(r, NO) if self.kinds.get(r) == "" else NO
                own = frozenset(x for x in inside if self.kinds.get(x) == "")
                out |= own or inside      # a container made here with containers made here in it
            else:
                out.add(r if r.endswith("*") else r + "*")
        return frozenset(out)

    def deep(self, v):
        """what is inside a value, at any depth"""
        out, seen, todo = set(), set(), list(v)
        while todo:
            r = todo.pop()
            if r not in seen:
                seen.add(r)
                inside = self.load([r])
                out |= inside
                todo += [x for x in inside if x.startswith("f:")]
        return frozenset(out)

    def put(self, v, w):
        """store w inside v"""
        for r in v:
            if r.startswith("f:"):
                self.contents[r] = self.contents.get(r, NO) | (w - {r})

    def mutate(self, v, node, what):
        for r in v:
            if not r.startswith("f:"):
                self.s.eff.setdefault(r, (self.f.module, getattr(node, "lineno", 0), what, self.f.qual))

    def constant(self, m, node, cls=None):
        """a module- or class-level value that nothing can be changed in"""
        if isinstance(node, (ast.Constant, ast.JoinedStr, ast.Lambda)):
            return True
        if isinstance(node, (ast.UnaryOp, ast.BinOp, ast.Tuple)):
            return all(self.constant(m, c, cls) for c in ast.iter_child_nodes(node) if isinstance(c, ast.expr))
        if isinstance(node, ast.Name):
            r = self.repo.resolve(m, node.id)
            if r is not None and r[0] == "expr":
                return self.constant(r[1], r[2])
            if cls is not None and node.id in cls.attrs:
                return self.constant(m, cls.attrs[node.id])
        if isinstance(node, ast.Call):
            return text_call(node) in ("re.compile", "int", "len", "str", "bytes", "float")
        return False

    def name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.locals:
            return NO
        r = self.repo.resolve(self.f.module, e.id)
        if r is None:
            return NO
        return self.entity(r)

    def entity(self, r):
        if r[0] == "expr":
            if self.constant(r[1], r[2], r[3] if len(r) > 3 else None):
                return NO
            m = r[1]
            k = next((n for n, v in m.env.items() if isinstance(v, tuple) and v[0] == "expr" and v[1] is r[2]), None) or "%s:%d" % (m.name, r[2].lineno)
            return frozenset(["g:%s.%s" % (m.name, k)])
        if r[0] == "cls":
            return frozenset(["g:" + r[1]])
        if r[0] == "unk":
            return frozenset(["g:?"])
        return NO

    def meaning(self, e):
        """repository entity behind a dotted expression, when its base is no local"""
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in self.env and x.id not in self.locals:
            return self.repo.resolve_expr(self.f.module, e)
        return None

    def me(self):
        f = self.f
        return f.node.args.args[0].arg if f.cls is not None and f.kind != "staticmethod" and f.node.args.args else None

    # -- expressions --
    def ev(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for v in e.values:
                    if isinstance(v, ast.FormattedValue):
                        self.ev(v.value)
            return NO
        if isinstance(e, ast.Name):
            return self.name(e)
        if isinstance(e, ast.Attribute):
            m = self.meaning(e)
            if m is not None and m[0] in ("expr", "cls", "unk"):
                return self.entity(m)
            if m is not None:
                return NO
            v = self.ev(e.value)
            return self.attr(e, v)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            self.ev(e.slice)
            return self.new(e, self.load(v)) if isinstance(e.slice, ast.Slice) else self.load(v)
        if isinstance(e, ast.Slice):
            for c in (e.lower, e.upper, e.step):
                self.ev(c)
            return NO
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return NO if not isinstance(e, ast.UnaryOp) or isinstance(e.op, ast.Not) else self.new(e)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.ev(v) for v in e.values])
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if text_of(e) is not None or isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
                return NO
            return self.new(e, self.load(a) | self.load(b))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return self.new(e, frozenset().union(*[self.ev(x) for x in e.elts]) if e.elts else NO, "")
        if isinstance(e, ast.Starred):
            return self.load(self.ev(e.value))
        if isinstance(e, ast.Dict):
            vs = [self.ev(x) for x in e.keys + e.values if x is not None]
            return self.new(e, frozenset().union(*vs) if vs else NO, "")
        if isinstance(e, COMP):
            save = dict(self.env)
            for g in e.generators:
                self.assign(g.target, self.load(self.ev(g.iter)))
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.key) | self.ev(e.value) if isinstance(e, ast.DictComp) else self.ev(e.elt)
            self.env = save
            return self.new(e, v, "")
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value)
            self.returns(v)
            return NO
        if isinstance(e, ast.Lambda):
            return NO
        return NO

    def attr(self, e, v):
        """read of attribute e.attr from value v"""
        own = []
        if e.attr not in self.fx.fields and e.attr.startswith("_") and e.attr in self.fx.inst:
            return self.new(e, kind="")   # a private field this version introduces: nothing else reads it
        gs = self.fx.getters.get(e.attr, ())
        if isinstance(e.value, ast.Name) and e.value.id == self.me() and self.f.cls is not None and self.f.kind != "classmethod":
            c = self.f.cls.qual
            own = [g for g in gs if g.cls.qual in self.repo.mro(c) or c in self.repo.mro(g.cls.qual)]
            if e.attr not in self.fx.inst and not own:
                for q in self.repo.mro(c):
                    k = self.repo.classes.get(q)
                    if k is not None and e.attr in k.attrs:
                        return NO if self.constant(k.module, k.attrs[e.attr], k) else frozenset(["g:%s.%s" % (q, e.attr)])
            gs = own
        kinds = {self.kinds.get(r) for r in v}
        if v and None not in kinds:
            gs = [g for g in gs if any(self.related(k, g.cls.qual) for k in kinds)]
        if not gs:
            return self.load(v)
        out = NO
        common = frozenset.intersection(*[frozenset(self.norm(g)) for g in gs]) if len(gs) > 1 and not own else None
        for g in gs:
            self.common = common
            out |= self.apply(g, [v], {}, e)
        self.common = None
        return out | (self.load(v) if e.attr in self.fx.inst and not self.fx.setters.get(e.attr) and not isinstance(e.value, ast.Name) else NO)

    # -- calls --
    def apply(self, f, args, kws, node):
        """effect of calling a repository function with these values; result"""
        s = self.fx.sums[f.qual]
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        val = {}
        for i, v in enumerate(args):
            if i < len(names):
                val[names[i]] = val.get(names[i], NO) | v
            elif a.vararg:
                val[a.vararg.arg] = val.get(a.vararg.arg, NO) | v
        for k, v in kws.items():
            if k is None or k not in names and k not in [p.arg for p in a.kwonlyargs]:
                if a.kwarg:
                    val[a.kwarg.arg] = val.get(a.kwarg.arg, NO) | v
                if k is None:
                    for n in names:
                        val[n] = val.get(n, NO) | v
            else:
                val[k] = val.get(k, NO) | v

        def m(roots):
            out = NO
            for r in roots:
                if not r.startswith("p:"):
                    out |= frozenset([r])
                elif r.endswith("*"):
                    out |= self.load(val.get(r[2:-1], NO))
                else:
                    out |= val.get(r[2:], NO)
            return out
        if True:
            common, self.common = self.common, None
            for r, (mod, line, what, origin) in s.eff.items():
                if r.startswith("g:"):
                    continue              # reported where it happens
                if common is not None and (names.index(r[2:].rstrip("*")) if r[2:].rstrip("*") in names else r) not in common:
                    continue
                if origin == f.qual and f.qual not in self.fx.known:
                    origin = self.f.qual  # a helper does it for its caller
                why = (self.f.module, getattr(node, "lineno", 0), "calls %s, which changes it (%s:%d %s)" % (f.node.name, mod.rel, line, what.split(" (")[0]), origin)
                for x in m([r]):
                    if not x.startswith("f:"):
                        self.s.eff.setdefault(x, why)
                if r.startswith("p:"):
                    for n, w in val.items():
                        if n != r[2:].rstrip("*"):
                            self.put(val.get(r[2:].rstrip("*"), NO), w)
        out = m(s.ret)
        if s.fresh:
            out |= self.new(node, m(s.inside), next(iter(s.kinds)) if len(s.kinds) == 1 else None)
        return out

    def lambdas(self, e, vals):
        """functions given as arguments run during the call"""
        for x in list(e.args) + [k.value for k in e.keywords]:
            if isinstance(x, ast.Lambda):
                save = dict(self.env)
                for p in x.args.args:
                    self.env[p.arg] = self.load(vals)
                r = self.ev(x.body)
                self.env = save
                yield r
            elif isinstance(x, ast.Name) and x.id in self.defs and x.id in self.env:
                yield self.inner(self.defs[x.id], [vals] * len(self.defs[x.id].args.args), {})

    def inner(self, d, args, kws):
        """call of a function defined inside this one"""
        if self.depth > 3:
            return NO
        self.depth += 1
        save, ret = dict(self.env), getattr(self, "_ret", None)
        names = [p.arg for p in d.args.posonlyargs + d.args.args]
        for i, n in enumerate(names):
            self.env[n] = args[i] if i < len(args) else kws.get(n, NO)
        for n in names:
            if n in kws:
                self.env[n] = kws[n]
        loc = bound(d)[0]
        for n in loc - set(names):
            self.env[n] = NO
        self._ret = NO
        self.block(d.body)
        out, self._ret = self._ret, ret
        self.env = save
        self.depth -= 1
        return out

    def returns(self, v):
        if getattr(self, "_ret", None) is not None:
            self._ret |= v
            return
        self.s.ret |= frozenset(r for r in v if not r.startswith("f:"))
        fr = [r for r in v if r.startswith("f:")]
        if fr:
            self.s.fresh = True
            self.s.kinds |= frozenset(self.kinds.get(r) for r in fr)
            self.s.inside |= frozenset(r for r in self.deep(frozenset(fr)) if not r.startswith("f:"))

    def call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kws = {}
        for k in e.keywords:
            kws[k.arg] = kws.get(k.arg, NO) | (self.load(self.ev(k.value)) if k.arg is None else self.ev(k.value))
        allv = frozenset().union(*args, *kws.values()) if args or kws else NO
        lam = list(self.lambdas(e, allv))
        lamv = frozenset().union(*lam) if lam else NO
        # plain names
        if isinstance(fn, ast.Name):
            if fn.id in self.defs and fn.id in self.env:
                return self.inner(self.defs[fn.id], args, kws)
            if fn.id == "super" and fn.id not in self.env:
                me = self.me()
                return self.env.get(me, NO) if me else NO
            if fn.id in self.env or fn.id in self.locals:
                v = self.name(fn)
                if v and fn.id == self.me():
                    return self.construct(self.f.cls.qual, args, kws, e, allv)
                return self.new(e, self.load(v) | self.load(allv))
            r = self.repo.resolve(self.f.module, fn.id)
            if r is not None:
                return self.target(r, args, kws, e, allv, lamv)
            if fn.id in SCALAR:
                return NO
            if fn.id in COPY:
                return self.new(e, self.load(allv) | lamv, "")
            if fn.id in ("setattr", "delattr") and args:
                self.mutate(args[0], e, "sets an attribute")
                self.put(args[0], allv)
                return NO
            if fn.id in INNER:
                return self.load(allv) | lamv
            return self.new(e, self.load(allv) | lamv)
        if isinstance(fn, ast.Attribute):
            m = self.meaning(fn)
            if m is not None and m[0] in ("fn", "cls", "ext"):
                if m[0] == "fn":
                    f = self.repo.funcs.get(m[1])
                    if f is not None and f.kind == "classmethod":
                        return self.apply(f, [self.ev(fn.value)] + args, kws, e)
                return self.target(m, args, kws, e, allv, lamv)
            v = self.ev(fn.value)
            return self.method(e, fn, v, args, kws, allv, lamv)
        if isinstance(fn, ast.Lambda):
            save = dict(self.env)
            for i, p in enumerate(fn.args.args):
                self.env[p.arg] = args[i] if i < len(args) else NO
            out = self.ev(fn.body)
            self.env = save
            return out
        return self.new(e, self.load(self.ev(fn)) | self.load(allv))

    def target(self, r, args, kws, e, allv, lamv):
        if r[0] == "fn":
            f = self.repo.funcs.get(r[1])
            return self.apply(f, args, kws, e) if f is not None else NO
        if r[0] == "cls":
            return self.construct(r[1], args, kws, e, allv)
        if r[0] == "ext":
            n = r[1].split(".")[-1]
            if n in ("reduce",):
                return self.load(allv) | lamv
            if n in ("shuffle", "heappush", "heapify", "insort"):
                self.mutate(args[0] if args else NO, e, "%s changes its argument" % n)
                return NO
            if r[1].split(".")[0] in ("itertools", "functools", "collections", "operator", "copy"):
                return self.new(e, self.load(allv) | lamv, "" if n not in ("deepcopy", "copy") else None)
            return self.new(e, lamv, "")
        return self.new(e, self.load(allv))

    def construct(self, q, args, kws, e, allv):
        out = self.new(e, kind=q)
        for c in [q]:
            f = self.repo.lookup(c, "__init__")
            if f is not None:
                self.apply(f, [out] + args, kws, e)
            self.contents[next(iter(out))] = NO
        return out

    def norm(self, f):
        """the parameters a candidate changes, by position"""
        ps = [p.arg for p in f.node.args.args]
        return [ps.index(r[2:].rstrip("*")) if r[2:].rstrip("*") in ps else r for r in self.fx.sums[f.qual].eff if r.startswith("p:")]

    def plain(self, e):
        """a number or text, also by the name of one"""
        if plain(e):
            return True
        if isinstance(e, ast.Name):
            bs = bindings(self.f.node).get(e.id)
            return bool(bs) and all(x is not None and plain(x) for x in bs)
        if isinstance(e, ast.BinOp):
            return self.plain(e.left) and self.plain(e.right)
        if isinstance(e, ast.IfExp):
            return self.plain(e.body) and self.plain(e.orelse)
        return False

    def related(self, a, b):
        return a in self.repo.classes and b in self.repo.classes and (b in self.repo.mro(a) or a in self.repo.mro(b))

    def method(self, e, fn, v, args, kws, allv, lamv):
        nm = fn.attr
        cands = self.fx.by_name.get(nm, [])
        me = self.me()
        x = fn.value
        known = None
        if isinstance(x, ast.Name) and x.id == me and self.f.cls is not None:
            c = self.f.cls.qual
            f = self.repo.lookup(c, nm)
            known = ([f] if f is not None else []) + [g for g in cands if g.cls is not None and c in self.repo.mro(g.cls.qual) and g is not f]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and self.f.cls is not None:
            f = self.repo.lookup(self.f.cls.qual, nm, after=self.f.cls.qual)
            known = [f] if f is not None else []
            if f is None:
                return NO
        out = NO
        kinds = {self.kinds.get(r) for r in v}
        if isinstance(x, ast.Attribute) and hasattr(dict, nm) and self.repo.dict_field(x.attr) is not None:
            cands = []                # a dictionary's own
        if known:
            cands = known
        elif v and None not in kinds:
            cands = [g for g in cands if g.cls is not None and any(self.related(k, g.cls.qual) for k in kinds)]
        ks = [k.arg for k in e.keywords]
        if not known and None not in ks and not any(isinstance(a, ast.Starred) for a in e.args):
            cands = [g for g in cands if binds(g.node.args, len(e.args), ks, 0 if g.kind == "staticmethod" else 1)]
        if not known and len(cands) > 1:
            # which of them runs is not known: what all of them change is changed
            common = frozenset.intersection(*[frozenset(self.norm(f)) for f in cands])
        else:
            common = None
        got = []
        for f in cands:
            self.common = common
            if f.kind == "staticmethod":
                got.append(self.apply(f, args, kws, e))
            elif f.kind == "classmethod":
                got.append(self.apply(f, [NO] + args, kws, e))
            else:
                got.append(self.apply(f, [v] + args, kws, e))
        self.common = None
        if common is not None:
            # likewise for a shared object that only some of them return
            got = [frozenset(r for r in g if not r.startswith("g:") or all(r in h for h in got)) for g in got]
        out |= frozenset().union(*got)
        if known:
            return out
        if isinstance(x, (ast.Constant, ast.JoinedStr)):
            return NO if nm != "join" else NO
        rest = frozenset().union(*args[1:], *kws.values())     # what is looked for does not come out
        if nm in MUTATORS:
            self.mutate(v, e, "%s() in place" % nm)
            self.put(v, allv)
            return out | (self.load(v) | rest if nm in ("pop", "setdefault", "popitem") else NO)
        if cands:
            return out
        if nm == "copy":
            return self.new(e, self.load(v))
        if nm in STRISH:
            return NO
        if nm in INNER:
            return self.load(v) | rest
        return self.new(e, self.load(v) | self.load(allv) | lamv)

    # -- statements --
    def assign(self, x, v, node=None):
        if isinstance(x, ast.Name):
            if x.id in self.locals or self.depth or x.id in self.env:
                self.env[x.id] = v
            else:
                gl = bound(self.f.node)[1]
                if x.id in gl:
                    self.s.eff.setdefault("g:%s.%s" % (self.f.module.name, x.id), (self.f.module, getattr(x, "lineno", 0), "assigned", self.f.qual))
                else:
                    self.env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.assign(y, self.load(v))
        elif isinstance(x, ast.Starred):
            self.assign(x.value, self.new(x, self.load(v)))
        elif isinstance(x, ast.Attribute):
            m = self.meaning(x.value)
            if m is not None and m[0] == "cls":
                self.s.eff.setdefault("g:" + m[1], (self.f.module, x.lineno, "sets class attribute %s" % x.attr, self.f.qual))
                return
            if m is not None and m[0] == "mod":
                self.s.eff.setdefault("g:" + m[1], (self.f.module, x.lineno, "sets module attribute %s" % x.attr, self.f.qual))
                return
            t = self.ev(x.value)
            if x.attr in self.fx.fields or not x.attr.startswith("_"):
                self.mutate(t, x, "sets attribute %s" % x.attr)
            for f in self.fx.setters.get(x.attr, ()):
                s = self.fx.sums[f.qual]
                ps = [p.arg for p in f.node.args.args]
                if len(ps) > 1 and "p:" + ps[1] in s.eff:
                    self.mutate(self.load(v), x, "the setter of %s changes the value given" % x.attr)
            self.put(t, v)
        elif isinstance(x, ast.Subscript):
            t = self.ev(x.value)
            self.ev(x.slice)
            self.mutate(t, x, "assigns an element")
            self.put(t, v)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        """run alternatives from the same state; what any of them binds is possible afterwards"""
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            if callable(b):
                b()
            else:
                self.block(b)
            if not (isinstance(b, list) and b and ends(b)):
                outs.append(self.env)
        env = {}
        for o in outs or [start]:
            for k, v in o.items():
                env[k] = env.get(k, NO) | v
        self.env = env

    def stmt(self, s):
        if isinstance(s, FN):
            self.defs[s.name] = s
            self.env[s.name] = NO
            return
        if isinstance(s, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            return
        if isinstance(s, ast.Return):
            self.returns(self.ev(s.value))
        elif isinstance(s, ast.Raise):
            self.ev(s.exc)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for x in s.targets:
                self.assign(x, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            x = s.target
            if isinstance(x, ast.Name):
                cur = self.name(x)
                if not self.plain(s.value):
                    self.mutate(cur, s, "%s= in place" % {"Add": "+", "Sub": "-", "Mult": "*"}.get(type(s.op).__name__, "op"))
                    self.put(cur, self.load(v))
                self.assign(x, cur | (self.new(s, self.load(v) | self.load(cur)) if not self.plain(s.value) else NO))
            else:
                base = self.ev(x.value)
                self.mutate(base, s, "changed in place")
                self.put(base, self.load(v))
        elif isinstance(s, ast.Delete):
            for x in s.targets:
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    self.mutate(self.ev(x.value), s, "deletes from it")
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                def once():
                    self.assign(s.target, self.load(it))
                    self.block(s.body)
                self.branch(once, [])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                self.branch(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            def main():
                self.block(s.body)
                self.block(s.orelse)
            start = dict(self.env)
            main()
            after = self.env
            outs = [after]
            for h in s.handlers:
                self.env = {k: start.get(k, NO) | after.get(k, NO) for k in set(start) | set(after)}
                if h.name:
                    self.env[h.name] = self.new(h)
                self.block(h.body)
                if not ends(h.body):
                    outs.append(self.env)
            self.env = {k: frozenset().union(*[o.get(k, NO) for o in outs]) for k in {k for o in outs for k in o}}
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)


def ends(body):
    """a block that surely leaves"""
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and isinstance(body[-1], (ast.Return, ast.Raise))


_bind = {}


def bindings(fn):
    """name -> the expressions it can stand for (None: anything), parameters included"""
    if fn in _bind:
        return _bind[fn]
    out = {}
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.setdefault(p.arg, []).append(None)

    def put(tg, v):
        if isinstance(tg, ast.Name):
            out.setdefault(tg.id, []).append(v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            ok = isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(tg.elts) and not any(isinstance(x, ast.Starred) for x in v.elts + tg.elts)
            for i, x in enumerate(tg.elts):
                put(x, v.elts[i] if ok else None)
        elif isinstance(tg, ast.Starred):
            put(tg.value, None)

    loops = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for x in n.targets:
                put(x, n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            put(n.target, n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            loops.append(n)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    put(i.optional_vars, None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, []).append(None)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                out.setdefault(x, []).append(None)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
            out.setdefault(n.func.value.id, []).append(None)
    for n in loops:
        it = n.iter
        if isinstance(it, ast.Name):
            bs = out.get(it.id, [None])
            it = bs[0] if len(bs) == 1 else None
        if isinstance(it, (ast.List, ast.Tuple)):
            for x in it.elts:
                put(n.target, x)
        else:
            put(n.target, None)
    _bind[fn] = out
    return out


def plain(e):
    """an operand that can only be a number or text"""
    if isinstance(e, (ast.Constant, ast.JoinedStr)):
        return True
    if isinstance(e, ast.BinOp):
        return plain(e.left) and plain(e.right) or isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) or isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) or isinstance(e.right, ast.Constant) and isinstance(e.right.value, str)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ("len", "int", "str", "float", "ord", "round", "abs") or isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "join", "hex", "strip", "upper", "lower")
    if isinstance(e, ast.IfExp):
        return plain(e.body) and plain(e.orelse)
    return False


def text_call(e):
    try:
        return ast.unparse(e.func)
    except Exception:
        return ""


P = "tfchain."

# what each kind of function is there to change: (pattern of the function, parameters it may change)
ALLOWED = [
    (r"\.__init__$|=setter$", {"self"}),
    (r"\.__i(add|sub|mul)__$", {"self"}),
    (r"_binary_encode(_data)?$", {"encoder"}),
    (r"^encoders\..*Encoder\.(add\w*|_add\w*|reset)$", {"self"}),
    (r"^internal\.jsutils\.", {"self"}),
    (r"\.(\w+_add|\w+_remove|\w+_set|add_\w+|push|_?from_json_data_object)$", {"self"}),
    (r"\.SignatureRequest\.signature_fulfill$", {"self"}),
    (r"^TFChainWallet\.\w*Balance\.(output_add|balance_add|multisig_output_add|_merge_multisig_wallet_balance)$", {"self"}),
    # what was collected so far is handed on to the multi-signature wallets, which add to it
    (r"^TFChainWallet\.WalletsBalance\._fund_multisig$", {"outputs", "collected"}),
    (r"^TFChainWallet\.WalletsBalance\.fund$", {"self"}),
    (r"^TFChainWallet\.CoinTransactionBuilder\.send$", {"self"}),
    (r"^TFChainWallet\.TFChainWallet\.transaction_sign$", {"txn"}),
    (r"^TFChainWallet\.TFChain(ThreeBot|ERC20)\._fund_txn$", {"txn"}),
    (r"^TFChainWallet\.TFChain(ThreeBot|ERC20)\._sign_and_submit_txn$", {"txn", "balance"}),
]
# changes that are not visible as one: keys found in use, outputs a getter keeps in step with its transaction
ORIGINS = {P + "TFChainWallet.TFChainWallet." + n for n in ("_key_scan", "_key_pair_add", "_key_pair_new")} | {P + "types.transactions.ERC20.TransactionV209.coin_outputs"}
# state of the library helpers: the encoders by name, and the clock of the debug print
GLOBALS = {"internal.jsutils.BytesEncoder", "internal.jsutils.LASTTIME", "internal.jsutils.DELTATIME_INITIALIZED", "internal.jsutils.DELTATIME"}


def fixed(d):
    """a default value nothing can be changed in"""
    if isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.Lambda, ast.JoinedStr)):
        return True
    if isinstance(d, (ast.Tuple, ast.UnaryOp, ast.BinOp)):
        return all(fixed(c) for c in ast.iter_child_nodes(d) if isinstance(c, ast.expr))
    if isinstance(d, ast.Call):
        return text_call(d) in ("tuple", "frozenset", "int", "str", "bytes", "float", "bool")
    return False


def shared_defaults(f, fx):
    """defaults made once and changed or handed on by the function"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is None or fixed(d):
            continue
        s = fx.sums[f.qual]
        n = p.arg
        kept = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == n and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets)]
        if "p:" + n in s.eff or "p:" + n + "*" in s.eff or "p:" + n in s.ret or kept:
            yield p, d


def p31(ctx):
    repo = ctx.repo
    known = ctx.known or set(repo.funcs)
    fx = Effects(repo, known)
    from .writes import decide
    decide(ctx, False)
    calls = 0
    for q, s in sorted(fx.sums.items()):
        f = repo.funcs[q]
        ctx.funcs.add(q)
        short = q[len(P):] if q.startswith(P) else q
        may = set()
        for pat, names in ALLOWED:
            if re.search(pat, short):
                may |= names
        me = f.node.args.args[0].arg if f.cls is not None and f.kind != "staticmethod" and f.node.args.args else None
        bad, glob = [], []
        for r, (m, l, w, origin) in sorted(s.eff.items(), key=lambda kv: kv[0]):
            n = r[2:].rstrip("*")
            if r.startswith("g:"):
                n = n[len(P):] if n.startswith(P) else n
                if n not in GLOBALS and "?" not in n:
                    glob.append("%s:%d: %s: %s" % (m.rel, l, n, w))
                continue
            if q not in known or origin in ORIGINS:
                continue
            if ("self" if n == me else n) in may:
                continue
            bad.append("%s:%d: %s%s: %s" % (m.rel, l, "what is inside " if r.endswith("*") else "", n, w))
        for p, d in shared_defaults(f, fx):
            glob.append("%s:%d: the default of %s is one object for all calls, and it is changed or kept" % (f.module.rel, d.lineno, p.arg))
        ctx.ob("%s.changes" % short, not bad, f.where, lambda bad=bad: "changes what it only reads: " + "; ".join(bad))
        ctx.ob("%s.shared" % short, not glob, f.where, lambda glob=glob: "changes a module or class object shared by everything: " + "; ".join(glob))
        calls += len(s.eff)
    ctx.notes.append("%d functions, %d effects on parameters and shared objects, fixpoint after %d rounds" % (len(fx.sums), calls, fx.rounds))
    ctx.need(len(fx.sums) > 700 and calls > 100, "too little of the program was reached")
