"""Program model: modules, imports, classes, functions, method resolution."""

import ast
import copy
import os
import re


class Func:
    def __init__(self, qual, node, module, cls=None, kind="func"):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls          # Class or None
        self.kind = kind        # func method classmethod staticmethod getter setter

    def __repr__(self):
        return "<Func %s>" % self.qual

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}    # name -> Func
        self.getters = {}
        self.setters = {}
        self.attrs = {}      # name -> ast expr
        self.inner = {}
        self.bases = []      # resolved quals or 'b:name'

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.env = {}        # name -> ('mod', m) | ('obj', modname, name) | ('cls', qual) | ('fn', qual) | ('expr', node)
        self.is_pkg = path.endswith("__init__.py")


class AnalysisBroken(Exception):
    pass


def _constant(d):
    try:
        return ast.literal_eval(d)
    except (ValueError, TypeError, SyntaxError):
        return None


class _Replace(ast.NodeTransformer):
    def __init__(self, name, by):
        self.name, self.by = name, by

    def visit_Name(self, n):
        return ast.copy_location(copy.deepcopy(self.by), n) if n.id == self.name and isinstance(n.ctx, ast.Load) else n


class Repo:
    def __init__(self, root="/repo", package="tfchain"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self._mro = {}
        for d, dirs, files in os.walk(os.path.join(root, package)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes.values():
            c.bases = [self._resolve_base(c, b) for b in c.node.bases]
        self.all_funcs = dict(self.funcs)

    def defaulted(self, kind):
        """names of parameters whose default is True or False, or a whole number"""
        n = {}
        for f in self.funcs.values():
            a = f.node.args
            ps = a.posonlyargs + a.args
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)) + [(p, None) for p in ps[:len(ps) - len(a.defaults)]]:
                b = d is not None and type(_constant(d)) is kind
                n[p.arg] = n.get(p.arg, 0) + (1 if b else -1)
        return {k for k, v in n.items() if v > 0}

    def splice(self, known):
        """functions that are not in the inventory are helpers: the body of one is put in place of its call wherever the call is a
        whole statement (or the value assigned by one), so that what reads the syntax sees what runs"""
        if known is None:
            return
        helpers = {id(f.node): f for f in self.funcs.values() if f.qual not in known and self._plain_helper(f)}
        if not helpers:
            return
        for f in list(self.funcs.values()):
            if isinstance(f.node, ast.FunctionDef) and not any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node for x in ast.walk(f.node)):
                n = [0, set()]
                f.node.body = self._spliced(f, f.node.body, helpers, True, n, (f.qual,))

    def _plain_helper(self, f):
        a = f.node.args if isinstance(f.node, ast.FunctionDef) else None
        if a is None or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or f.kind not in ("func", "method", "classmethod", "staticmethod"):
            return False
        if f.kind in ("method", "classmethod") and not a.args or f.cls is None and f.kind != "func":
            return False
        if len(f.node.decorator_list) != (1 if f.kind in ("classmethod", "staticmethod") else 0):
            return False
        return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ExceptHandler)) or isinstance(x, ast.FunctionDef)
                       and x is not f.node or isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(f.node))

    def _helper_called(self, f, c, helpers):
        """(helper, name of the receiver there or None, arguments) of a call"""
        if not isinstance(c, ast.Call) or any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
            return None
        a = f.node.args.posonlyargs + f.node.args.args
        g, recv = None, None
        if isinstance(c.func, ast.Name):
            if any(x.arg == c.func.id for x in a) or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == c.func.id for x in ast.walk(f.node)):
                return None
            g = self.funcs.get(f.module.name + "." + c.func.id)
            if g is None or g.kind != "func" or g.cls is not None:
                return None
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.cls is not None:
            n = c.func.value.id
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for x in ast.walk(f.node)):
                return None
            own = a and f.kind in ("method", "getter", "setter", "classmethod") and n == a[0].arg
            if not own and n != f.cls.node.name:
                return None
            g = self.lookup(f.cls.qual, c.func.attr)
            if g is None or g.cls is None or any(self.lookup(q, c.func.attr) is not g for q in self.subclasses(f.cls.qual)):
                return None
            if g.kind == "staticmethod":
                pass
            elif own and (g.kind == "method" and f.kind != "classmethod" or g.kind == "classmethod" and f.kind == "classmethod"):
                recv = n
            else:
                return None
        if g is None or id(g.node) not in helpers or g.module is not f.module:
            return None
        ps = [x.arg for x in g.node.args.args]
        if g.kind in ("method", "classmethod"):
            ps = ps[1:]
        if len(c.args) > len(ps):
            return None
        got = dict(zip(ps, c.args))
        for k in c.keywords:
            if k.arg not in ps or k.arg in got:
                return None
            got[k.arg] = k.value
        dn = [x.arg for x in g.node.args.args][len(g.node.args.args) - len(g.node.args.defaults):]
        for p, d in zip(dn, g.node.args.defaults):
            if p not in got and isinstance(d, ast.Constant):
                got[p] = d
        if set(got) != set(ps):
            return None
        return g, recv, [(p, got[p]) for p in [k for k in ps if any(got[k] is x for x in c.args)] + [k.arg for k in c.keywords] + [k for k in ps if not any(got[k] is x for x in c.args)
                                                                                                                and not any(k == y.arg for y in c.keywords)]]

    def _spliced(self, f, body, helpers, tail, n, inside):
        out = []
        for i, s in enumerate(body):
            last = i == len(body) - 1
            v = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign)) else None
            h = self._helper_called(f, v, helpers) if v is not None else None
            if h is not None and h[0].qual in inside:
                h = None
            if h is not None:
                b = self._in_place(f, s, h, n)
                if b is not None:
                    out.extend(self._spliced(f, b, helpers, tail and last, n, inside + (h[0].qual,)))
                    continue
            for fld in ("body", "orelse", "finalbody"):
                x = getattr(s, fld, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, fld, self._spliced(f, x, helpers, False, n, inside))
            for x in getattr(s, "handlers", []) or []:
                x.body = self._spliced(f, x.body, helpers, False, n, inside)
            out.append(s)
        return out

    def _in_place(self, f, s, h, n):
        g, recv, args = h
        node = copy.deepcopy(g.node)
        body = node.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        rets = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Return)]
        if not body:
            return None
        if isinstance(s, ast.Return):
            if not isinstance(body[-1], (ast.Return, ast.Raise)):
                body.append(ast.copy_location(ast.Return(None), body[-1]))
        else:
            if rets and (len(rets) > 1 or rets[0] is not body[-1]):
                return None
            end = [ast.copy_location(ast.Constant(None), s)] if not rets or rets[0].value is None else [rets[0].value]
            if rets:
                body = body[:-1]
            if not isinstance(s, ast.Expr):
                s.value = end[0]
                body = body + [s]
            elif rets and rets[0].value is not None:
                body = body + [ast.copy_location(ast.Expr(rets[0].value), s)]
            if not body:
                body = [ast.copy_location(ast.Pass(), s)]
        taken = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)} | n[1]
        stored = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        ps = [p for p, _ in args]
        me = g.node.args.args[0].arg if recv is not None else None
        free = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)} - stored - {x.arg for x in g.node.args.args}
        bound = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)} | n[1]
        if me in stored or free & bound:
            return None
        kept = set(map(id, ast.walk(s))) if not isinstance(s, (ast.Return, ast.Expr)) else set()
        if kept:
            kept -= set(map(id, ast.walk(s.value)))
        new, pre = {}, []
        n[0] += 1
        for x in stored - set(ps):
            new[x] = x if x not in taken else "%s_in%d" % (x, n[0])
        for p, a in args:
            if isinstance(a, ast.Name) and p not in stored:
                new[p] = a.id
                continue
            new[p] = p if p not in taken and p not in new.values() else "%s_in%d" % (p, n[0])
            pre.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(new[p], ast.Store()), s)], a, lineno=s.lineno), s))
        n[1].update(new.values())
        if me is not None:
            new[me] = recv
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in new and id(x) not in kept:
                    x.id = new[x.id]
        return [ast.fix_missing_locations(x) for x in pre + body]

    def normalise(self):
        """two ways of writing that say nothing: counting a loop without using the count, and a local name for a container held in
        an attribute through which the container is then changed"""
        stores, uses = {}, {}     # methods that give an attribute of their own object a value; methods using one of these on it
        for f in self.funcs.values():
            a = f.node.args.posonlyargs + f.node.args.args
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    own = f.cls is not None and a and isinstance(x.value, ast.Name) and x.value.id == a[0].arg
                    if not isinstance(x.ctx, ast.Load):
                        stores.setdefault(x.attr, set()).add(f.node.name)
                    if own:
                        uses.setdefault(x.attr, set()).add(f.node.name)
        for f in self.funcs.values():
            if isinstance(f.node, ast.FunctionDef):
                self._uncount(f.node)
                self._unloop(f.node)
                self._rotate(f.node)
                self._chunks(f.node)
                self._setupdate(f)
                self._unalias(f, stores, uses)

    def _uncount(self, node):
        def unused(t):
            return isinstance(t, ast.Name) and not any(isinstance(x, ast.Name) and x.id == t.id and x is not t for x in ast.walk(node))
        for x in ast.walk(node):
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" \
                    and len(x.iter.args) in (1, 2) and not any(isinstance(a, (ast.Starred, ast.Call)) for a in x.iter.args[1:]) and isinstance(x.target, ast.Tuple) \
                    and len(x.target.elts) == 2 and unused(x.target.elts[0]):
                x.iter, x.target = x.iter.args[0], x.target.elts[1]

    CHANGES = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem")

    def _unloop(self, node):
        """a loop over a few containers, written out, that changes each of them: one after the other"""
        def held(e):
            return isinstance(e, ast.Attribute) and (isinstance(e.value, ast.Name) or held(e.value))

        def changed(b, v):
            return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == v and y.func.attr in self.CHANGES
                       or isinstance(y, ast.Subscript) and not isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == v for s in b for y in ast.walk(s))
        for p in list(ast.walk(node)):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                    continue
                out = []
                for s in b:
                    if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) <= 6 \
                            and all(held(e) for e in s.iter.elts) and changed(s.body, s.target.id) \
                            and not any(isinstance(y, (ast.Break, ast.Continue, ast.Lambda, ast.FunctionDef)) for x in s.body for y in ast.walk(x)) \
                            and sum(isinstance(y, ast.Name) and y.id == s.target.id for y in ast.walk(node)) == sum(isinstance(y, ast.Name) and y.id == s.target.id for y in ast.walk(s)) \
                            and not any(isinstance(y, ast.Name) and y.id == s.target.id and not isinstance(y.ctx, ast.Load) for x in s.body for y in ast.walk(x)):
                        for e in s.iter.elts:
                            for x in copy.deepcopy(s.body):
                                out.append(_Replace(s.target.id, e).visit(x))
                    else:
                        out.append(s)
                b[:] = out

    @staticmethod
    def _blocks(node):
        for p in list(ast.walk(node)):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield b

    def _rotate(self, node):
        """x = E; while T: ...; x = E   is   while True: x = E; if not T: break; ..."""
        def continues(b):
            for s in b:
                if isinstance(s, ast.Continue):
                    return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                    continue
                if any(continues(getattr(s, fld, None) or []) for fld in ("body", "orelse", "finalbody")) or any(continues(h.body) for h in getattr(s, "handlers", ())):
                    return True
            return False
        for b in self._blocks(node):
            for i in range(len(b) - 1):
                a, w = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and isinstance(w, ast.While) and not w.orelse and len(w.body) > 1 and ast.dump(a) == ast.dump(w.body[-1]) \
                        and any(isinstance(x, ast.Call) for x in ast.walk(a.value)) and not continues(w.body[:-1]):
                    test = w.test.operand if isinstance(w.test, ast.UnaryOp) and isinstance(w.test.op, ast.Not) else ast.UnaryOp(ast.Not(), w.test)
                    w.body[:] = [a, ast.If(test, [ast.Break()], [])] + w.body[:-1]
                    w.test = ast.Constant(True)
                    b[i] = ast.Pass()
                    for x in (b[i], w):
                        ast.copy_location(x, a)
                        ast.fix_missing_locations(x)

    def _chunks(self, node):
        """for i in range(0, len(x), n): ... x[i:i+n] ...   is   while len(x) > 0: y = x[:n]; x = x[n:]; ...   for a local x not used afterwards"""
        args = {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}
        for k, b in enumerate(self._blocks(node)):
            for j, s in enumerate(b):
                if not (b is node.body and isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                        and s.iter.func.id == "range" and len(s.iter.args) == 3 and not s.iter.keywords and isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value == 0):
                    continue
                ln, n, i = s.iter.args[1], s.iter.args[2], s.target.id
                if not (isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name) and ln.func.id == "len" and len(ln.args) == 1 and isinstance(ln.args[0], ast.Name)):
                    continue
                x = ln.args[0].id
                if not isinstance(n, (ast.Name, ast.Constant)) or x in args:
                    continue
                want = {ast.dump(ast.parse(q % dict(x=x, i=i, n=ast.unparse(n)), mode="eval").body) for q in
                        ("%(x)s[%(i)s:%(i)s+%(n)s]", "%(x)s[%(i)s:%(n)s+%(i)s]", "%(x)s[%(i)s:min(%(i)s+%(n)s, len(%(x)s))]")}
                uses = [y for z in s.body for y in ast.walk(z) if isinstance(y, ast.Subscript) and ast.dump(y) in want]
                inside = {id(z) for y in uses for z in ast.walk(y)}
                ids = {z.id for y in [n] for z in ast.walk(y) if isinstance(z, ast.Name)} | {i, x}
                if not uses or any(isinstance(y, ast.Name) and y.id in (i, x) and id(y) not in inside for z in s.body for y in ast.walk(z)) \
                        or any(isinstance(y, ast.Name) and y.id in ids and not isinstance(y.ctx, ast.Load) for z in s.body for y in ast.walk(z)) \
                        or any(isinstance(y, ast.Name) and y.id in (i, x) for z in b[j + 1:] for y in ast.walk(z)) \
                        or any(isinstance(y, (ast.Continue, ast.Lambda, ast.FunctionDef)) for z in s.body for y in ast.walk(z)):
                    continue
                part = i + "__part"

                class R(ast.NodeTransformer):
                    def visit_Subscript(self, y):
                        if id(y) in {id(u) for u in uses}:
                            return ast.Name(part, ast.Load())
                        return self.generic_visit(y)
                body = [R().visit(z) for z in s.body]
                head = ast.parse("%s = %s[:%s]\n%s = %s[%s:]" % (part, x, ast.unparse(n), x, x, ast.unparse(n))).body
                w = ast.While(ast.parse("len(%s) > 0" % x, mode="eval").body, head + body, [])
                for z in [w] + head + list(ast.walk(w.test)):
                    ast.copy_location(z, s)
                for z in ast.walk(w):
                    if isinstance(z, (ast.expr, ast.stmt)) and not getattr(z, "lineno", None):
                        ast.copy_location(z, s)
                for h in head:
                    for z in ast.walk(h):
                        if isinstance(z, (ast.expr, ast.stmt)):
                            ast.copy_location(z, s)
                b[j] = w

    def _setupdate(self, f):
        """self.x.update(other.x)   is   self.x |= other.x   for a field that is made as a set"""
        if f.cls is None:
            return
        a = f.node.args.posonlyargs + f.node.args.args
        me = a[0].arg if a else None
        fields = {}
        for c in self.mro(f.cls.qual):
            for g in (self.classes[c].methods.values() if c in self.classes else ()):
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name):
                        fields.setdefault(x.targets[0].attr, []).append(isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "set")
        for b in self._blocks(f.node):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "update" \
                        and len(s.value.args) == 1 and not s.value.keywords and isinstance(s.value.func.value, ast.Attribute) and isinstance(s.value.args[0], ast.Attribute):
                    x, y = s.value.func.value, s.value.args[0]
                    if isinstance(x.value, ast.Name) and x.value.id == me and x.attr == y.attr and fields.get(x.attr) and all(fields[x.attr]):
                        x.ctx = ast.Store()
                        b[i] = ast.copy_location(ast.AugAssign(x, ast.BitOr(), y), s)

    def _unalias(self, f, stores, uses):
        node = f.node
        names = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                names.setdefault(x.id, []).append(x)
        args = {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}
        for x in [x for x in ast.walk(node) if isinstance(x, ast.Assign)]:
            if len(x.targets) != 1 or not isinstance(x.targets[0], ast.Name) or len(names[x.targets[0].id]) != 1 or x.targets[0].id in args or not isinstance(x.value, ast.Attribute):
                continue
            v, base = x.targets[0].id, x.value
            chain = []
            while isinstance(base, ast.Attribute):
                chain.append(base.attr)
                base = base.value
            if not isinstance(base, ast.Name) or base.id not in args or base.id in names or not all(a.startswith("_") and not a.startswith("__") for a in chain):
                continue
            changed = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == v and y.func.attr in self.CHANGES
                          or isinstance(y, ast.Subscript) and not isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == v for y in ast.walk(node))
            if not changed:
                continue
            # nothing run here gives one of these attributes another value
            todo = {y.attr for y in ast.walk(node) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == base.id} \
                | {y.func.attr if isinstance(y.func, ast.Attribute) else y.func.id for y in ast.walk(node) if isinstance(y, ast.Call) and isinstance(y.func, (ast.Attribute, ast.Name))}
            bad = {n for a in chain for n in stores.get(a, ())}
            while True:
                more = {g for n in bad for g in uses.get(n, ())} - bad
                if not more:
                    break
                bad |= more
            bad -= {"__init__"}
            if any(isinstance(y, ast.Attribute) and y.attr in chain and not isinstance(y.ctx, ast.Load) for y in ast.walk(node)) or todo & bad:
                continue
            _Replace(v, x.value).visit(node)

    def named_members(self, qual):
        """the members of a class made once, next to it, from a written-out value:  C.NAME = C(value)"""
        if not hasattr(self, "_members"):
            self._members = {}
        if qual not in self._members:
            out, c = {}, self.classes.get(qual)
            if c is not None:
                for n in c.module.tree.body:
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) \
                            and n.targets[0].value.id == c.node.name and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                            and n.value.func.id == c.node.name and len(n.value.args) == 1 and isinstance(n.value.args[0], ast.Constant):
                        k = n.targets[0].attr
                        out[k] = None if k in out else n.value.args[0].value
                out = {k: v for k, v in out.items() if v is not None}
            self._members[qual] = out
        return self._members[qual]

    def list_getter(self, name):
        """a property that gives a list in every class that has it"""
        if not hasattr(self, "_list_getters"):
            ok = {}
            for f in self.funcs.values():
                if f.cls is None or not isinstance(f.node, ast.FunctionDef):
                    continue
                rs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
                good = f.kind == "getter" and rs and all(isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                                        and v.func.id in ("list", "sorted") for v in rs)
                if f.kind != "setter":
                    ok[f.node.name] = ok.get(f.node.name, True) and bool(good)
            self._list_getters = {k for k, v in ok.items() if v}
        return name in self._list_getters

    def gives(self, name, cls=None):
        """a call (or reading) of anything in the repository with this name gives something, never None; with a class: what that
        class and those below it define"""
        k = (name, cls)
        if not hasattr(self, "_gives"):
            self._gives = {}
        if k not in self._gives:
            self._gives[k] = True   # a function that only gives on what it itself gives
            fs = [g for g in self.funcs.values() if g.node.name == name and g.cls is not None and g.kind != "setter"]
            if cls is not None:
                f = self.lookup(cls, name) or self.lookup(cls, name, "getters")
                fs = ([f] if f is not None else []) + [g for q in self.subclasses(cls) for g in [self.lookup(q, name) or self.lookup(q, name, "getters")] if g is not None and g is not f]
            elif any(hasattr(b, name) for b in (dict, list, set, str, bytes, int, object, re.compile(""), re.match("", ""))):
                fs = []
            fs = [g for g in fs if not any(isinstance(d, ast.Name) and d.id == "abstractmethod" for d in g.node.decorator_list)]
            if fs and any(g.kind == "getter" for g in fs):
                if not all(g.kind == "getter" for g in fs) or cls is None and any(
                        isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"
                        and f.cls is not None and self.lookup(f.cls.qual, name, "setters") is None for f in self.funcs.values() for n in ast.walk(f.node)):
                    fs = []
            self._gives[k] = bool(fs) and all(isinstance(g.node, ast.FunctionDef) and self._always(g) for g in fs)
        return self._gives[k]

    def fn_gives(self, qual):
        if not hasattr(self, "_fgives"):
            self._fgives = {}
        if qual not in self._fgives:
            self._fgives[qual] = True
            f = self.funcs.get(qual)
            self._fgives[qual] = f is not None and isinstance(f.node, ast.FunctionDef) and self._always(f)
        return self._fgives[qual]

    def _always(self, g):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node)):
            return False
        inner = {id(y) for n in ast.walk(g.node) if n is not g.node and isinstance(n, (ast.FunctionDef, ast.Lambda)) for y in ast.walk(n)}

        def ends(b):
            l = b[-1] if b else None
            if isinstance(l, (ast.Return, ast.Raise)):
                return True
            if isinstance(l, ast.If):
                return ends(l.body) and ends(l.orelse)
            return False
        if not ends(g.node.body):
            return False
        kept = set()
        for n in g.node.body:   # if x is None: return ..  : what follows has something in x
            if isinstance(n, ast.If) and ends(n.body) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Is) \
                    and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None and not n.orelse:
                kept.add(ast.dump(n.test.left))

        def val(v):
            if v is None:
                return False
            if isinstance(v, ast.Constant):
                return v.value is not None
            if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.JoinedStr, ast.BinOp, ast.Compare)):
                return True
            if isinstance(v, ast.UnaryOp):
                return True
            if isinstance(v, ast.IfExp):
                t = v.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                    a, b = (v.body, v.orelse) if isinstance(t.ops[0], ast.Is) else (v.orelse, v.body)
                    return val(a) and (val(b) or ast.dump(b) == ast.dump(t.left))
                return val(v.body) and val(v.orelse)
            if isinstance(v, ast.BoolOp):
                return val(v.values[-1]) and isinstance(v.op, ast.Or) or all(val(x) for x in v.values)
            a = g.node.args.posonlyargs + g.node.args.args
            if isinstance(v, ast.Name):
                if a and g.cls is not None and g.kind in ("method", "getter", "classmethod") and v.id == a[0].arg:
                    return True
                if any(v.id == x.arg for x in a + g.node.args.kwonlyargs):
                    return False
                st = [n for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store) and id(n) not in inner]
                asg = [n for n in ast.walk(g.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] in st or isinstance(n, ast.AugAssign) and n.target in st]
                return bool(st) and len(st) == len(asg) and all(isinstance(n, ast.AugAssign) or val(n.value) for n in asg)
            if isinstance(v, ast.Attribute):
                if ast.dump(v) in kept and not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
                    return True
                if isinstance(v.value, ast.Name) and a and v.value.id == a[0].arg and g.cls is not None:
                    return self.gives(v.attr, g.cls.qual) and self.lookup(g.cls.qual, v.attr, "getters") is not None
                r = self.resolve_expr(g.module, v.value)
                return bool(r and r[0] == "cls" and v.attr in self.named_members(r[1]))
            if isinstance(v, ast.Call):
                if isinstance(v.func, ast.Name) and a and g.kind == "classmethod" and v.func.id == a[0].arg:
                    return True
                r = self.resolve_expr(g.module, v.func)
                if r and r[0] == "cls":
                    return True
                if r and r[0] == "fn":
                    return self.fn_gives(r[1])
                if isinstance(v.func, ast.Name) and v.func.id in ("str", "int", "bool", "len", "list", "dict", "set", "tuple", "bytes", "bytearray", "abs", "sum", "repr", "sorted"):
                    return True
                if isinstance(v.func, ast.Attribute):
                    if isinstance(v.func.value, ast.Name) and a and v.func.value.id == a[0].arg and g.cls is not None:
                        return self.gives(v.func.attr, g.cls.qual)
                    return self.gives(v.func.attr)
            return False
        return all(val(n.value) for n in ast.walk(g.node) if isinstance(n, ast.Return) and id(n) not in inner)

    def _something(self, v, f, field, depth=0):
        """the expression is never None: a new object, the result of methods that always give one, a value of the same dictionary,
        a name an attribute of which is read, or a parameter for which every caller gives such an expression"""
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            return v.func.id[:1].isupper()
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            fs = [g.node for g in self.funcs.values() if g.node.name == v.func.attr and isinstance(g.node, ast.FunctionDef)]
            return bool(fs) and all(isinstance(g.body[-1], (ast.Return, ast.Raise)) and all(
                n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in ast.walk(g) if isinstance(n, ast.Return)) for g in fs)
        if isinstance(v, ast.Subscript):
            return isinstance(v.value, ast.Attribute) and v.value.attr == field
        if not isinstance(v, ast.Name):
            return False
        if any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == v.id and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
            return True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store):
                loops = [l for l in ast.walk(f.node) if isinstance(l, ast.For) and any(y is n for y in ast.walk(l.target))]
                it = loops[0].iter if loops else None
                if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "values")
                        and isinstance(it.func.value, ast.Attribute) and it.func.value.attr == field):
                    asg = [a for a in ast.walk(f.node) if isinstance(a, ast.Assign) and len(a.targets) == 1 and a.targets[0] is n]
                    if not asg or depth > 3 or not self._something(asg[0].value, f, field, depth + 1):
                        return False
        ps = [a.arg for a in f.node.args.args]
        if v.id not in ps:
            return True
        if depth > 3 or f.cls is None:
            return False
        k = ps.index(v.id) - (0 if f.kind == "staticmethod" else 1)
        for g in self.funcs.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.node.name:
                    w = n.args[k] if k < len(n.args) else next((q.value for q in n.keywords if q.arg == v.id), None)
                    if w is None or not self._something(w, g, field, depth + 1):
                        return False
        return True

    def dict_field(self, name):
        """every store to this private field makes it a dictionary: None, or whether no None is ever put in it"""
        if not hasattr(self, "_dict_fields"):
            self._dict_fields = {}
            bad, full = set(), {}
            for f in self.funcs.values():
                read = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load)}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        ts, v = n.targets, n.value
                    elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                        ts, v = [n.target], None
                    elif isinstance(n, (ast.For, ast.withitem)):
                        ts, v = [n.target if isinstance(n, ast.For) else n.optional_vars], None
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                            and n.func.attr in ("update", "setdefault", "__setitem__"):
                        full[n.func.value.attr] = False
                        continue
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        k = n.args[1] if len(n.args) > 1 else None
                        if isinstance(k, ast.Constant):
                            bad.add(k.value)
                        continue
                    else:
                        continue
                    for x in [y for z in ts if z is not None for y in (z.elts if isinstance(z, (ast.Tuple, ast.List)) else [z])]:
                        if isinstance(x, ast.Attribute):
                            if x is ts[0] and isinstance(v, ast.Dict) and not v.keys:
                                full.setdefault(x.attr, True)
                            elif x is ts[0] and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and not v.keywords:
                                full.setdefault(x.attr, True)
                            elif x is ts[0] and isinstance(v, ast.Attribute) and v.attr == x.attr or isinstance(v, ast.Call) and (
                                    isinstance(v.func, ast.Name) and v.func.id == "dict" and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.Attribute) and v.args[0].attr == x.attr
                                    or isinstance(v.func, ast.Attribute) and v.func.attr == "copy" and not v.args and isinstance(v.func.value, ast.Attribute) and v.func.value.attr == x.attr):
                                pass              # the same of another object
                            else:
                                bad.add(x.attr)
                        elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute):
                            if not (x is ts[0] and (isinstance(v, ast.Name) and v.id in read or self._something(v, f, x.value.attr))):
                                full[x.value.attr] = False
            self._dict_fields = {k: v for k, v in full.items() if k not in bad and k.startswith("_")}
            # properties that hand out such a field
            got = {}
            for f in self.funcs.values():
                if f.cls is not None and isinstance(f.node, ast.FunctionDef) and f.kind != "setter":
                    rs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
                    v = rs[0] if f.kind == "getter" and len(rs) == 1 else None
                    got.setdefault(f.node.name, set()).add(v.attr if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.attr in self._dict_fields else None)
            for k, vs in got.items():
                if None not in vs and k not in bad:
                    self._dict_fields[k] = all(self._dict_fields[v] for v in vs)
        return self._dict_fields.get(name)

    def may_raise(self, short, names, lookup):
        """an operation of this name may end in one of the exceptions (over-approximated along names used in bodies)"""
        key = (names, lookup)
        if not hasattr(self, "_raisers"):
            self._raisers, self._by_short, self._uses = {}, {}, {}
            for f in self.funcs.values():
                self._by_short.setdefault(f.node.name, []).append(f)
                if f.node.name in ("__init__", "__new__") and f.cls is not None:
                    self._by_short.setdefault(f.cls.node.name, []).append(f)
            for f in self.funcs.values():
                env = f.module.env
                outside = {n for n, v in env.items() if n != "*" and isinstance(v, tuple) and v[0] == "mod" and not v[1].startswith(self.package)}
                self._uses[f.qual, f.kind] = {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f.node)
                                              if isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and x.value.id in outside) or isinstance(x, ast.Name) and x.id not in outside} & set(self._by_short)
        if key not in self._raisers:
            shorts = {n.split(".")[-1].split(":")[-1] for q in names for n in ([q] + list(self.subclasses(q)) if q in self.classes else [q])}
            if lookup:
                shorts |= {"KeyError", "IndexError", "LookupError"}

            def direct(f):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Raise) and (x.exc is None or {y.id if isinstance(y, ast.Name) else y.attr for y in ast.walk(x.exc) if isinstance(y, (ast.Name, ast.Attribute))} & shorts):
                        return True
                    if lookup and (isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Load, ast.Del)) and not isinstance(x.slice, ast.Slice)
                                   or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "remove", "popitem", "index", "__getitem__")):
                        return True
                return False
            bad = {f.node.name if n is None else n for f in self.funcs.values() if direct(f) for n in (None, f.cls.node.name if f.cls is not None and f.node.name == "__init__" else None)}
            while True:
                more = {n for n, fs in self._by_short.items() if n not in bad and any(self._uses[f.qual, f.kind] & bad for f in fs)}
                if not more:
                    break
                bad |= more
            self._raisers[key] = bad
        if short in self._raisers[key]:
            return True
        return lookup and short in ("pop", "remove", "popitem", "index", "__getitem__")

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.modules[name] = Module(name, path, rel, ast.parse(src, path), src)

    def _collect(self, m):
        def imports(node, env):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        env[a.asname] = ("mod", a.name)
                    else:
                        env[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for a in node.names:
                    if a.name == "*":
                        env.setdefault("*", []).append(base)
                    else:
                        env[a.asname or a.name] = ("obj", base, a.name)

        self._imports = imports

        def body(stmts, prefix, cls):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    if cls is None:
                        imports(s, m.env)
                elif isinstance(s, ast.ClassDef):
                    q = prefix + "." + s.name
                    c = Class(q, s, m)
                    self.classes[q] = c
                    if cls is None:
                        m.env[s.name] = ("cls", q)
                    else:
                        cls.inner[s.name] = q
                    body(s.body, q, c)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = "method" if cls else "func"
                    q = prefix + "." + s.name
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name):
                            if d.id in ("staticmethod", "classmethod"):
                                kind = d.id
                            elif d.id == "abstractclassmethod":
                                kind = "classmethod"
                            elif d.id == "property":
                                kind = "getter"
                        elif isinstance(d, ast.Attribute):
                            if d.attr == "setter":
                                kind = "setter"
                                q = q + "=setter"
                            elif d.attr == "deleter":
                                kind = "deleter"
                                q = q + "=deleter"
                    fn = Func(q, s, m, cls, kind)
                    self.funcs[q] = fn
                    if cls is None:
                        m.env[s.name] = ("fn", q)
                    elif kind == "getter":
                        cls.getters[s.name] = fn
                    elif kind == "setter":
                        cls.setters[s.name] = fn
                    elif kind == "deleter":
                        pass
                    else:
                        cls.methods[s.name] = fn
                elif isinstance(s, ast.Assign):
                    for tg in s.targets:
                        if isinstance(tg, ast.Name):
                            if cls is None:
                                m.env[tg.id] = ("expr", s.value)
                            else:
                                cls.attrs[tg.id] = s.value
                                # alias of a method (__radd__ = __add__, __repr__ = __str__)
                                if isinstance(s.value, ast.Name) and s.value.id in cls.methods:
                                    cls.methods[tg.id] = cls.methods[s.value.id]
                        elif isinstance(tg, ast.Tuple) and cls is None:
                            for e in tg.elts:
                                if isinstance(e, ast.Name):
                                    m.env[e.id] = ("unk", s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    if cls is None:
                        m.env[s.target.id] = ("expr", s.value)
                    else:
                        cls.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    body(s.body, prefix, cls)
                    for h in getattr(s, "handlers", []):
                        body(h.body, prefix, cls)
                    body(s.orelse, prefix, cls)

        body(m.tree.body, m.name, None)

    # -- name resolution --
    def resolve(self, m, name, depth=0):
        """resolve a module-level name to ('cls',q) ('fn',q) ('mod',n) ('expr',module,node) ('ext', dotted) or None"""
        if depth > 20:
            return None
        e = m.env.get(name)
        if e is None:
            for base in m.env.get("*", []):
                mm = self.modules.get(base)
                if mm is not None:
                    r = self.resolve(mm, name, depth + 1)
                    if r:
                        return r
            return None
        return self.resolve_entry(m, e, depth)

    def resolve_entry(self, m, e, depth=0):
        if e[0] in ("cls", "fn"):
            return e
        if e[0] == "mod":
            return e
        if e[0] == "expr":
            n = e[1]
            if isinstance(n, ast.Name):
                r = self.resolve(m, n.id, depth + 1)
                if r and r[0] in ("cls", "fn"):
                    return r
            return ("expr", m, n)
        if e[0] == "unk":
            return ("unk",)
        if e[0] == "obj":
            base, nm = e[1], e[2]
            sub = base + "." + nm
            mm = self.modules.get(base)
            if mm is not None:
                r = self.resolve(mm, nm, depth + 1)
                if r:
                    return r
            if sub in self.modules:
                return ("mod", sub)
            return ("ext", sub)
        return None

    def local_imports(self, m, node):
        env = {}
        self._imports_for(m, node, env)
        return {k: self.resolve_entry(m, v) for k, v in env.items() if k != "*"}

    def _imports_for(self, m, node, env):
        if isinstance(node, ast.Import):
            for a in node.names:
                env[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        else:
            base = node.module or ""
            if node.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                base = ".".join(parts + ([base] if base else []))
            for a in node.names:
                env[a.asname or a.name] = ("obj", base, a.name)

    def resolve_attr(self, r, name):
        """resolve attribute of a resolved entity"""
        if r is None:
            return None
        if r[0] == "mod":
            mm = self.modules.get(r[1])
            if mm is not None:
                x = self.resolve(mm, name)
                if x:
                    return x
            if r[1] + "." + name in self.modules:
                return ("mod", r[1] + "." + name)
            if mm is None:
                return ("ext", r[1] + "." + name)
            return None
        if r[0] == "cls":
            for c in self.mro(r[1]):
                cl = self.classes.get(c)
                if cl is None:
                    continue
                if name in cl.inner:
                    return ("cls", cl.inner[name])
                if name in cl.methods:
                    return ("fn", cl.methods[name].qual)
                if name in cl.attrs:
                    return ("expr", cl.module, cl.attrs[name], cl)
            return None
        if r[0] == "ext":
            return ("ext", r[1] + "." + name)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            return self.resolve_attr(self.resolve_expr(m, e.value), e.attr)
        return None

    def _resolve_base(self, c, b):
        r = self.resolve_expr(c.module, b)
        if r is None:
            if isinstance(b, ast.Name):
                return "b:" + b.id
            return "?"
        if r[0] == "cls":
            return r[1]
        if r[0] == "ext":
            return "ext:" + r[1]
        return "?"

    def mro(self, q):
        if q in self._mro:
            return self._mro[q]
        c = self.classes.get(q)
        if c is None:
            return [q]
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [q]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in z[1:] for z in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
                elif h in s:
                    s.remove(h)
        self._mro[q] = out
        return out

    def is_sub(self, a, b):
        return b in self.mro(a)

    def subclasses(self, q):
        return [c for c in self.classes if q in self.mro(c)]

    def lookup(self, q, name, table="methods", after=None):
        order = self.mro(q)
        if after is not None and after in order:
            order = order[order.index(after) + 1:]
        for c in order:
            cl = self.classes.get(c)
            if cl is None:
                continue
            f = getattr(cl, table).get(name)
            if f is not None:
                return f
            if table == "methods" and (name in cl.getters):
                return None
        return None

    def fn(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken("anchor function %s not found" % qual)
        return f

    def method(self, cls, name):
        """resolved method/getter of a class, through the MRO"""
        if cls not in self.classes:
            raise AnalysisBroken("anchor class %s not found" % cls)
        f = self.lookup(cls, name)
        if f is None:
            f = self.lookup(cls, name, "getters")
        if f is None:
            raise AnalysisBroken("anchor method %s.%s not found" % (cls, name))
        return f

    def setter(self, cls, name):
        f = self.lookup(cls, name, "setters")
        if f is None:
            raise AnalysisBroken("anchor setter %s.%s not found" % (cls, name))
        return f
