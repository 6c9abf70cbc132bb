#!/usr/bin/env python3
"""Development aid: plants small syntactic faults (or behaviour-preserving edits) in copies of the source, in memory,
and reports which ones a property's check notices.   mutate.py PROP[,PROP..] [--refactor] [--files substr] [--limit N] [--kind description,..] [--all]
Nothing is executed from the analysed program; /repo is not touched."""

import ast
import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa import core, registry, model  # noqa: E402
from sa.core import Ctx, AnalysisBroken  # noqa: E402

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.LShift: [ast.RShift], ast.BitOr: [ast.BitAnd], ast.Mod: [ast.FloorDiv]}


def mutants(fn, selfattrs):
    """yield (description, apply) for function node"""
    for node in ast.walk(fn):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for o in CMP.get(type(op), []):
                    yield ln, "cmp %s->%s" % (type(op).__name__, o.__name__), (lambda n=node, i=i, o=o: n.ops.__setitem__(i, o()))
        elif isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                yield ln, "bin %s->%s" % (type(node.op).__name__, o.__name__), (lambda n=node, o=o: setattr(n, "op", o()))
        elif isinstance(node, ast.AugAssign):
            for o in BIN.get(type(node.op), []):
                yield ln, "aug %s->%s" % (type(node.op).__name__, o.__name__), (lambda n=node, o=o: setattr(n, "op", o()))
        elif isinstance(node, ast.BoolOp):
            o = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield ln, "bool swap", (lambda n=node, o=o: setattr(n, "op", o()))
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    yield ln, "bool drop %d" % i, (lambda n=node, i=i: n.values.pop(i) if len(n.values) > 2 else setattr(n, "values", [n.values[1 - i]] * 2))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield ln, "drop not", (lambda n=node: (setattr(n, "op", ast.Not()), setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(node, (ast.If, ast.While)) and not isinstance(node.test, (ast.Compare, ast.BoolOp)):
            yield ln, "negate if", (lambda n=node: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield ln, "const %r" % v, (lambda n=node: setattr(n, "value", not n.value))
            elif isinstance(v, int):
                yield ln, "const %r+1" % v, (lambda n=node: setattr(n, "value", n.value + 1))
                yield ln, "const %r-1" % v, (lambda n=node: setattr(n, "value", n.value - 1))
            elif isinstance(v, float):
                yield ln, "const %r*2" % v, (lambda n=node: setattr(n, "value", n.value * 2))
            elif isinstance(v, str) and 0 < len(v) < 24:
                yield ln, "const %r" % v, (lambda n=node: setattr(n, "value", n.value + "x"))
            elif isinstance(v, bytes):
                yield ln, "const %r" % v, (lambda n=node: setattr(n, "value", n.value[:-1] if n.value else b"x"))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                for i in range(len(node.args) - 1):
                    yield ln, "swap args %d" % i, (lambda n=node, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]]))
                for i in range(len(node.args)):
                    yield ln, "drop arg %d" % i, (lambda n=node, i=i: n.args.pop(i))
            for i, k in enumerate(node.keywords):
                yield ln, "drop kw %s" % k.arg, (lambda n=node, i=i: n.keywords.pop(i))
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == "self" and isinstance(node.ctx, ast.Load):
            c = [a for a in selfattrs if a != node.attr and a.lstrip("_") != node.attr.lstrip("_") and a.startswith("_") == node.attr.startswith("_")]
            for a in sorted(c, key=lambda a: sum(1 for x, y in zip(a, node.attr) if x != y) + abs(len(a) - len(node.attr)))[:1]:
                yield ln, "self.%s->self.%s" % (node.attr, a), (lambda n=node, a=a: setattr(n, "attr", a))
        elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
            yield ln, "return None", (lambda n=node: setattr(n, "value", ast.Constant(None)))
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                yield ln, "slice drop lower", (lambda n=node: setattr(n, "lower", None))
            if node.upper is not None:
                yield ln, "slice drop upper", (lambda n=node: setattr(n, "upper", None))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.If, ast.For, ast.Continue, ast.Break)):
                        yield s.lineno, "delete %s" % ast.unparse(s).split("\n")[0][:50], (lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
                for i in range(len(b) - 1):
                    if all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) for s in b[i:i + 2]):
                        yield b[i].lineno, "swap stmts", (lambda b=b, i=i: b.__setitem__(slice(i, i + 2), [b[i + 1], b[i]]))


# ------------------------------------------------------------------ behaviour-preserving edits

class _Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.m = {n: n + "_v" for n in names}

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def refactors(fn, cls, counter=[0]):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    nested = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn]
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    imps = {al.asname or al.name for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
    glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    loc -= imps | glob | {x.name for x in nested if isinstance(x, ast.FunctionDef)}
    if loc and not nested:
        def ren():
            fn.body = [_Rename(loc).visit(s) for s in fn.body]
        yield fn.lineno, "rename locals", ren
    doc = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    noop = ast.parse("_unused = None\nif False:\n    pass").body
    yield fn.lineno, "no-op", (lambda: fn.body.__setitem__(slice(doc, doc), noop))
    yield fn.lineno, "no-op end", (lambda: fn.body.insert(doc, ast.parse("assert True").body[0]))
    # whole body into a helper
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) and not any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(fn)) and not a.defaults and not a.kwonlyargs \
            and not a.vararg and not a.kwarg and fn.name != "__init__":
        decs = [ast.unparse(d) for d in fn.decorator_list]
        if cls is not None and (not decs or decs == ["property"]):
            def ext():
                h = copy.deepcopy(fn)
                h.name = "_zz_impl_" + fn.name.strip("_")
                h.decorator_list = []
                args = ", ".join(x.arg for x in a.args[1:])
                fn.body = ast.parse("return self.%s(%s)" % (h.name, args)).body if a.args[0].arg == "self" else fn.body
                if a.args[0].arg == "self":
                    cls.body.append(h)
            yield fn.lineno, "extract body to method", ext
    for node in ast.walk(fn):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.If) and node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            def inv(n=node):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            yield ln, "invert if", inv
        if isinstance(node, ast.If) and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and not node.orelse:
            def nest(n=node):
                n.body = [ast.If(n.test.values[-1], n.body, [])]
                n.test = n.test.values[0] if len(n.test.values) == 2 else ast.BoolOp(ast.And(), n.test.values[:-1])
            yield ln, "nest if", nest
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            def flip(n=node):
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [o()]
            yield ln, "flip cmp", flip
        if isinstance(node, ast.IfExp):
            def inve(n=node):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            yield ln, "invert ifexp", inve
        for fld in ("body", "orelse"):
            b = getattr(node, fld, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                    def tmp(b=b, i=i, s=s):
                        b[i:i + 1] = [ast.Assign([ast.Name("result_", ast.Store())], s.value, lineno=s.lineno), ast.Return(ast.Name("result_", ast.Load()))]
                    yield s.lineno, "return via temp", tmp
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], (ast.Starred, ast.Constant, ast.Name)):
                    def targ(b=b, i=i, s=s):
                        v = s.value.args[0]
                        s.value.args[0] = ast.Name("arg_", ast.Load())
                        b.insert(i, ast.Assign([ast.Name("arg_", ast.Store())], v, lineno=s.lineno))
                    yield s.lineno, "arg via temp", targ
                if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                    def tcond(b=b, i=i, s=s):
                        v = s.test
                        s.test = ast.Name("cond_", ast.Load())
                        b.insert(i, ast.Assign([ast.Name("cond_", ast.Store())], v, lineno=s.lineno))
                    yield s.lineno, "cond via temp", tcond
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.Name)) and False:
                    pass
                # early return -> else
                if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    def toelse(b=b, i=i, s=s):
                        s.orelse = b[i + 1:]
                        del b[i + 1:]
                    yield s.lineno, "guard to else", toelse
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    def unelse(b=b, i=i, s=s):
                        rest = s.orelse
                        s.orelse = []
                        b[i + 1:i + 1] = rest
                    yield s.lineno, "else to guard", unelse
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name) and len(s.targets) == 1 and not any(
                        isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)):
                    def unroll(b=b, i=i, s=s):
                        g = s.value.generators[0]
                        n = s.targets[0].id
                        app = ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                        body = [app]
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], ast.List([], ast.Load()), lineno=s.lineno),
                                      ast.For(g.target, g.iter, body, [], lineno=s.lineno)]
                    yield s.lineno, "comprehension to loop", unroll
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)) and not any(
                        isinstance(x, (ast.Continue,)) for x in ast.walk(s)):
                    def idx(b=b, i=i, s=s):
                        it = ast.unparse(s.iter)
                        pre = ast.parse("seq_ = %s" % it).body[0]
                        s.body.insert(0, ast.parse("%s = seq_[i_]" % s.target.id).body[0])
                        s.iter = ast.parse("range(len(seq_))").body[0].value
                        s.target = ast.Name("i_", ast.Store())
                        b.insert(i, pre)
                    yield s.lineno, "for to index", idx


def _calls(n):
    return any(isinstance(x, (ast.Call, ast.Subscript, ast.Yield, ast.Await)) for x in ast.walk(n))


def _own(stmts, kinds):
    """statements of the kinds that belong to this loop (not to a nested one)"""
    for s in stmts:
        if isinstance(s, kinds):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if isinstance(s, ast.FunctionDef):
                continue
            if ast.Return in kinds and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _own(getattr(s, f, []) or [], kinds):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _own(h.body, kinds):
                return True
    return False


def _names(nodes, ctx):
    return [x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)]


def refactors2(fn, cls, tree):
    a = fn.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(fn) if x is not fn)
    sup = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(fn))
    imps = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(fn))
    decs = [ast.unparse(d) for d in fn.decorator_list]
    first = params[0] if params else None
    if cls is None:
        where = "fn"
    elif first == "self" and all(d == "property" or d.endswith(".setter") for d in decs):
        where = "self"
    elif first == "cls" and decs == ["classmethod"]:
        where = "cls"
    else:
        where = None
    pre = {"fn": "", "self": "self.", "cls": "cls."}.get(where)
    name = "_zz_part"
    called = "%s%s" % (pre, name)

    def put(h, args):
        d = ast.parse("def %s(%s):\n    pass" % (name, ", ".join(([first] if where != "fn" else []) + args))).body[0]
        d.body = h
        if where == "cls":
            d.decorator_list = [ast.Name("classmethod", ast.Load())]
        (cls if where != "fn" else tree).body.append(d)

    doc = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if where and not nested and not sup and not imps:
        n = len(fn.body)
        for i in [k for k in range(doc + 1, n) if k in (doc + 1, (doc + n) // 2, n - 2, n - 1)]:
            head, tail = fn.body[doc:i], fn.body[i:]
            sure = {t.id for s in head if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)} \
                | {e.id for s in head if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Tuple) for e in t.elts if isinstance(e, ast.Name)}
            maybe = set(_names(head, ast.Store)) - sure
            used = set(_names(tail, ast.Load)) | {x.target.id for s in tail for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            if maybe & used:
                continue
            need = [v for v in dict.fromkeys(params + sorted(sure)) if v in used and v != (first if where != "fn" else None)]

            def ext(i=i, tail=tail, need=need):
                put(tail, need)
                fn.body[i:] = ast.parse("return %s(%s)" % (called, ", ".join(need))).body
            yield fn.body[i].lineno, "extract tail", ext
    every = list(ast.walk(fn))
    for node in every:
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            for i, s in enumerate(b):
                if where and not nested and not sup and not imps and isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                    loc = set(params) | {x.id for x in every if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in every if isinstance(x, ast.ExceptHandler) and x.name}
                    comp_ = set(_names([s.test], ast.Store))
                    need = [v for v in dict.fromkeys(_names([s.test], ast.Load)) if v in loc and v not in comp_ and v != (first if where != "fn" else None)]

                    def extc(s=s, need=need):
                        put([ast.Return(s.test)], need)
                        s.test = ast.parse("%s(%s)" % (called, ", ".join(need))).body[0].value
                    yield s.lineno, "extract condition", extc
                for w in (2, 3):
                    part = b[i:i + w]
                    if len(part) < w or not where or nested or sup or imps or i == 0 and b is fn.body and doc or i + w >= len(b) and b is fn.body:
                        continue
                    if _own(part, (ast.Return, ast.Break, ast.Continue)) or any(isinstance(x, ast.Return) for y in part for x in ast.walk(y)):
                        continue
                    ids = {id(x) for y in part for x in ast.walk(y)}
                    st = set(_names(part, ast.Store))
                    outer = {x.id for x in every if isinstance(x, ast.Name) and id(x) not in ids}
                    shared = st & (outer | set(params))
                    out_ = shared
                    flat = {t.id for y in part if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name)}
                    if len(out_) > 1 or out_ - flat:
                        continue
                    before = {x.name for x in every if isinstance(x, ast.ExceptHandler) and x.name} | set(params) | {x.id for x in every if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in ids}
                    # read before being written inside: has to come from outside
                    seen, need, okk = set(), [], True
                    for y in part:
                        for v in _names([y], ast.Load):
                            if v in before and v not in seen and v not in need and v != (first if where != "fn" else None):
                                need.append(v)
                        if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id not in seen and y.target.id not in need:
                            need.append(y.target.id)
                        if isinstance(y, ast.Assign):
                            seen |= {t.id for t in y.targets if isinstance(t, ast.Name)}
                    if any(v in st and v not in params and min((x.lineno for x in every if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)), default=0) >= part[0].lineno for v in need):
                        continue
                    sure_ = {t.id for y in fn.body if isinstance(y, ast.Assign) and y.lineno < part[0].lineno for t in y.targets if isinstance(t, ast.Name)} | set(params) | {
                        x.id for y in every if isinstance(y, (ast.For, ast.comprehension)) for x in ast.walk(y.target) if isinstance(x, ast.Name)}
                    if any(v not in sure_ for v in need):
                        continue

                    def extm(b=b, i=i, w=w, part=part, need=need, out_=out_):
                        if out_:
                            v = next(iter(out_))
                            put(part + [ast.Return(ast.Name(v, ast.Load()))], need)
                            b[i:i + w] = ast.parse("%s = %s(%s)" % (v, called, ", ".join(need))).body
                        else:
                            put(part, need)
                            b[i:i + w] = ast.parse("%s(%s)" % (called, ", ".join(need))).body
                    yield s.lineno, "extract middle %d" % w, extm
                if isinstance(s, ast.For) and where and not nested and not sup and not imps and not s.orelse \
                        and not _own(s.body, (ast.Break, ast.Continue, ast.Return)):
                    inside = set(_names(s.body, ast.Store))
                    target = set(_names([s.target], ast.Store))
                    ids = {id(x) for x in ast.walk(s)}
                    outside = {x.id for x in every if isinstance(x, ast.Name) and id(x) not in ids} | set(params)
                    if not inside & outside and not inside & target:
                        loc = set(params) | {x.id for x in every if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        need = [v for v in dict.fromkeys(_names(s.body, ast.Load)) if v in loc and v not in inside and v != (first if where != "fn" else None)]

                        def extb(s=s, need=need):
                            put(s.body, need)
                            s.body = ast.parse("%s(%s)" % (called, ", ".join(need))).body
                        yield s.lineno, "extract loop body", extb
                if isinstance(s, ast.For) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse and not s.orelse:
                    def cont(s=s):
                        t = s.body[-1]
                        s.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), t.test), [ast.Continue()], [])] + t.body
                    yield s.lineno, "if to continue", cont
                if isinstance(s, ast.For) and not s.orelse and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate"):
                    def enum(s=s):
                        s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
                        s.target = ast.Tuple([ast.Name("_pos", ast.Store()), s.target], ast.Store())
                    yield s.lineno, "for to enumerate", enum
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.iter, ast.Call) \
                        and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target.elts[0], ast.Name) and not _calls(s.iter.func.value):
                    def keys(s=s):
                        d = s.iter.func.value
                        k, v = s.target.elts
                        s.body.insert(0, ast.Assign([v], ast.Subscript(d, ast.Name(k.id, ast.Load()), ast.Load()), lineno=s.lineno))
                        s.iter, s.target = copy.deepcopy(d), k
                    yield s.lineno, "items to keys", keys
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(
                        isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s.body[0], s.orelse[0])) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                    def toexp(b=b, i=i, s=s):
                        b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=s.lineno)
                    yield s.lineno, "if/else to ifexp", toexp
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    def fromexp(b=b, i=i, s=s):
                        b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=s.lineno)],
                                      [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=s.lineno)])
                    yield s.lineno, "ifexp to if/else", fromexp
                if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    def retexp(b=b, i=i, s=s):
                        b[i:i + 1] = [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
                    yield s.lineno, "return ifexp to if", retexp
                if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp):
                    def retbool(b=b, i=i, s=s):
                        op = s.value.op
                        t, rest = s.value.values[0], s.value.values[1:]
                        rest = rest[0] if len(rest) == 1 else ast.BoolOp(op, rest)
                        pre_ = ast.Assign([ast.Name("first_", ast.Store())], t, lineno=s.lineno)
                        c = ast.Name("first_", ast.Load())
                        b[i:i + 1] = [pre_, ast.If(ast.UnaryOp(ast.Not(), c) if isinstance(op, ast.And) else c, [ast.Return(ast.Name("first_", ast.Load()))], []), ast.Return(rest)]
                    yield s.lineno, "return bool to if", retbool
                if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and isinstance(b[i + 1], ast.Return) \
                        and s.body[0].value is not None and b[i + 1].value is not None:
                    def retif(b=b, i=i, s=s):
                        b[i:i + 2] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))]
                    yield s.lineno, "if return to ifexp", retif
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and isinstance(s.body[-1], (ast.Raise, ast.Return, ast.Continue)):
                    def split(b=b, i=i, s=s):
                        b[i:i + 1] = [ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values]
                    yield s.lineno, "split or", split
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                    def morgan(s=s):
                        o = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
                        s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
                    yield s.lineno, "de morgan", morgan
                if i + 1 < len(b) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and not _calls(x.value) for x in b[i:i + 2]):
                    x, y = b[i], b[i + 1]
                    if x.targets[0].id != y.targets[0].id and x.targets[0].id not in _names([y.value], ast.Load) and y.targets[0].id not in _names([x.value], ast.Load):
                        yield s.lineno, "swap assignments", (lambda b=b, i=i: b.__setitem__(slice(i, i + 2), [b[i + 1], b[i]]))
                if i + 1 < len(b) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name)
                                          and x.targets[0].attr.startswith("_") and not _calls(x.value) for x in b[i:i + 2]):
                    x, y = b[i], b[i + 1]
                    if x.targets[0].attr != y.targets[0].attr and not any(isinstance(z, ast.Attribute) for z in ast.walk(y.value)) and not any(isinstance(z, ast.Attribute) for z in ast.walk(x.value)):
                        yield s.lineno, "swap stores", (lambda b=b, i=i: b.__setitem__(slice(i, i + 2), [b[i + 1], b[i]]))
                if i + 1 < len(b) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name)
                                          and x.targets[0].attr.startswith("_") and (not _calls(x.value) or isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name)
                                                                                     and x.value.func.id[0].isupper() and not x.value.args) for x in b[i:i + 2]):
                    x, y = b[i], b[i + 1]
                    if x.targets[0].attr != y.targets[0].attr and (_calls(x.value) or _calls(y.value)):
                        yield s.lineno, "swap stores made", (lambda b=b, i=i: b.__setitem__(slice(i, i + 2), [b[i + 1], b[i]]))
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                    def aug(b=b, i=i, s=s):
                        b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), lineno=s.lineno)
                    yield s.lineno, "augassign", aug
                if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(b[i + 1], (ast.Return, ast.Expr, ast.Assign, ast.If)):
                    v = s.targets[0].id
                    nx = b[i + 1]
                    part = nx.test if isinstance(nx, ast.If) else nx
                    uses = [x for x in every if isinstance(x, ast.Name) and x.id == v]
                    here = [x for x in ast.walk(part) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                    if len(uses) == 2 and len(here) == 1 and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(part)):
                        others = [x for x in ast.walk(part) if isinstance(x, (ast.Call, ast.Subscript)) and not any(y is here[0] for y in ast.walk(x))]
                        anc = [x for x in ast.walk(part) if isinstance(x, ast.Call) and any(y is here[0] for y in ast.walk(x))]
                        if not others and (not anc or all(not _calls(z) for x in anc for z in [x.func] if not any(y is here[0] for y in ast.walk(z)))):
                            def inl(b=b, i=i, s=s, nx=nx, v=v):
                                class R(ast.NodeTransformer):
                                    def visit_Name(self, n):
                                        return s.value if n.id == v and isinstance(n.ctx, ast.Load) else n
                                if isinstance(nx, ast.If):
                                    nx.test = R().visit(nx.test)
                                else:
                                    b[i + 1] = R().visit(nx)
                                del b[i]
                            yield s.lineno, "inline temp", inl
                # an empty list filled by a loop becomes a comprehension
                if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                        and isinstance(b[i + 1], ast.For) and len(b[i + 1].body) == 1 and not b[i + 1].orelse:
                    f, v = b[i + 1], s.targets[0].id
                    inner, conds = f.body[0], []
                    while isinstance(inner, ast.If) and not inner.orelse and len(inner.body) == 1:
                        conds.append(inner.test)
                        inner = inner.body[0]
                    if isinstance(inner, ast.Expr) and isinstance(inner.value, ast.Call) and ast.unparse(inner.value.func) == v + ".append" and v not in _names([inner.value.args[0], f.iter] + conds, ast.Load):
                        def comp(b=b, i=i, s=s, f=f, inner=inner, conds=conds):
                            b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(inner.value.args[0], [ast.comprehension(f.target, f.iter, conds, 0)]), lineno=s.lineno)]
                        yield s.lineno, "loop to comprehension", comp
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.NotIn, ast.IsNot)) or (
                isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], ast.NotEq) and isinstance(node.comparators[0], ast.Constant)):
            def neg(n=node):
                o = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[type(n.ops[0])]
                c = ast.Compare(n.left, [o()], n.comparators)
                n.__class__ = ast.UnaryOp
                n.op, n.operand = ast.Not(), c
            yield node.lineno, "x not in y", neg
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(node.func.value, ast.Constant) \
                and isinstance(node.func.value.value, str) and not node.keywords and node.args and node.func.value.value.count("{}") == len(node.args) == node.func.value.value.count("{"):
            def fstr(n=node):
                parts = n.func.value.value.split("{}")
                vals = []
                for k, t in enumerate(parts):
                    if t:
                        vals.append(ast.Constant(t))
                    if k < len(n.args):
                        vals.append(ast.FormattedValue(n.args[k], -1, None))
                n.__class__ = ast.JoinedStr
                n.values = vals
            yield node.lineno, "format to f-string", fstr
    if where == "self" and not nested and not imps:
        stores = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in every)
        selfcall = any(isinstance(x, ast.Call) and ((isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self") or any(
            isinstance(y, ast.Name) and y.id == "self" for y in x.args)) for x in every) or sup
        if not stores and not selfcall:
            for at in sorted({x.attr for x in every if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr.startswith("_") and not x.attr.startswith("__")}):
                def alias(at=at):
                    class R(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            self.generic_visit(n)
                            if n.attr == at and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                                return ast.Name("own_", ast.Load())
                            return n
                    fn.body = fn.body[:doc] + [ast.parse("own_ = self.%s" % at).body[0]] + [R().visit(s) for s in fn.body[doc:]]
                yield fn.lineno, "alias self.%s" % at, alias


def all_refactors(fn, cls, tree):
    if "--new" not in sys.argv:
        yield from refactors(fn, cls)
    yield from refactors2(fn, cls, tree)


# ------------------------------------------------------------------ driver

def run_prop(prop, modname, tree, rel, path, src):
    base = model.Repo.__new__(model.Repo)
    os.environ["TFCHAIN_REPO"] = core.REPO
    orig = model.Repo._load

    def load(self, p):
        orig(self, p)
        if os.path.abspath(p) == os.path.abspath(path):
            for m in self.modules.values():
                if os.path.abspath(m.path) == os.path.abspath(path):
                    m.tree = tree
    model.Repo._load = load
    if path != os.devnull:
        core._repo = None
    try:
        import signal

        def late(*a):
            raise TimeoutError("analysis took too long")
        signal.signal(signal.SIGALRM, late)
        signal.alarm(int(os.environ.get("T", "60")))
        ctx = Ctx(prop, "quick", 0)
        e = registry.RULES[prop]
        mod = importlib.import_module("sa.rules." + e["module"])
        getattr(mod, e["func"])(ctx)
        ctx.floor(e.get("floor", 1))
        kf = set()
        try:
            kf = {f["key"] for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f.get("status") == "known"}
        except FileNotFoundError:
            pass
        v = [x for x in ctx.violations if x["key"] not in kf]
        return "caught" if v else "quiet", v[0]["key"] + ": " + str(v[0]["msg"])[:160] if v else ""
    except AnalysisBroken as x:
        return "broken", str(x)[:160]
    except TimeoutError:
        return "slow", ""
    except Exception as x:
        import traceback
        return "crash", repr(x)[:100] + traceback.format_exc()[-300:]
    finally:
        signal.alarm(0)
        model.Repo._load = orig
        if path != os.devnull:
            core._repo = None


def job(a):
    props, path, rel, qual, kind, k = a
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    fn, cls, attrs = find(tree, qual)
    gen = mutants(fn, attrs) if kind == "mut" else all_refactors(fn, cls, tree)
    for i, (ln, desc, ap) in enumerate(gen):
        if i == k:
            ap()
            break
    ast.fix_missing_locations(tree)
    tree = ast.parse(ast.unparse(tree))
    out = {}
    for p in props:
        out[p] = run_prop(p, None, tree, rel, path, src)
    return rel, qual, ln, desc, out


def find(tree, qual):
    out = []

    def go(body, prefix, cls):
        for s in body:
            if isinstance(s, ast.ClassDef):
                go(s.body, prefix + "." + s.name, s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + "." + s.name, s.lineno, s, cls))
    go(tree.body, "", None)
    q, line = qual
    for n, l, s, cls in out:
        if n == q and l == line:
            attrs = set()
            if cls is not None:
                attrs = {x.attr for x in ast.walk(cls) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
            return s, cls, attrs
    raise KeyError(qual)


def main():
    props = sys.argv[1].split(",")
    kind = "ref" if "--refactor" in sys.argv else "mut"
    sub = sys.argv[sys.argv.index("--files") + 1] if "--files" in sys.argv else None
    fsub = sys.argv[sys.argv.index("--func") + 1] if "--func" in sys.argv else None
    limit = int(sys.argv[sys.argv.index("--limit") + 1]) if "--limit" in sys.argv else 10 ** 9
    only = sys.argv[sys.argv.index("--kind") + 1].split(",") if "--kind" in sys.argv else None
    quals = set()
    for p in props:
        ev = json.load(open(os.path.join(V, "evidence", p + ".json")))
        quals |= set(ev["coverage"]["functions_analysed"])
    repo = core.get_repo()
    jobs = []
    for m in repo.modules.values():
        if sub and sub not in m.rel:
            continue
        tree = ast.parse(m.src)

        def go(body, prefix, cls):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    go(s.body, prefix + "." + s.name, s)
                elif isinstance(s, ast.FunctionDef):
                    q = m.name + prefix + "." + s.name
                    if "--all" not in sys.argv and not any(x == q or x.split("=")[0] == q or x.startswith(q + "#") or x.startswith(q + "@") for x in quals):
                        continue
                    if fsub and fsub not in q:
                        continue
                    attrs = set() if cls is None else {x.attr for x in ast.walk(cls) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
                    ds = [d for _, d, _ in (mutants(s, attrs) if kind == "mut" else all_refactors(s, cls, tree))]
                    for k in range(len(ds)):
                        if only and not any(o in ds[k] for o in only):
                            continue
                        jobs.append((props, m.path, m.rel, (prefix + "." + s.name, s.lineno), kind, k))
        go(tree.body, "", None)
    random.Random(1).shuffle(jobs)
    jobs = jobs[:limit]
    tot = {p: {} for p in props}
    surv = []
    with mp.Pool(int(os.environ.get("J", "8")), maxtasksperchild=40) as pool:
        for rel, q, ln, desc, out in pool.imap_unordered(job, jobs, chunksize=4):
            for p in props:
                tot[p][out[p][0]] = tot[p].get(out[p][0], 0) + 1
            st = [out[p][0] for p in props]
            if kind == "mut":
                if not any(s in ("caught",) for s in st):
                    surv.append((rel, ln, q[0], desc, ",".join(sorted(set(st) - {"quiet"})) + (" " + out[props[0]][1] if st[0] != "quiet" else "")))
            else:
                for p in props:
                    if out[p][0] != "quiet":
                        surv.append((rel, ln, q[0], desc, p + " " + out[p][0] + " " + out[p][1]))
    for s in sorted(surv):
        print("%s:%d %s [%s] %s" % s)
    print(tot, "jobs", len(jobs), "listed", len(surv))


if __name__ == "__main__":
    main()
