"""P33: where the secrets of a wallet can go - information flow over the whole program."""

import ast
import json
import os

from ..core import *
from ..lib import *
from .wellformed import FN, COMP, bound, binds

NO = frozenset()
S = "S"
P = "tfchain."
WALLET, KEY, INIT = P + "TFChainWallet.TFChainWallet", P + "TFChainWallet.SpendableKey", P + "TFChainWallet.AtomicSwapInitiationResult"
# fields that hold secrets, and the operations that hand them out on request
HOLD = {(WALLET, "_seed"), (KEY, "_private_key"), (INIT, "_secret")}
GIVE = {WALLET + ".seed", WALLET + ".mnemonic", KEY + ".private_key", INIT + ".secret", P + "types.ConditionTypes.AtomicSwapSecret.random"}
ATTR = {"_seed", "seed", "mnemonic", "_private_key", "private_key"}
MAKE = {"to_entropy", "to_mnemonic", "to_seed", "SigningKey"}
# what is made from a secret and may be known: a public key, a signature, the hash a secret swap is locked with
PUBLIC = {"get_verifying_key", "sign", "from_secret", "isinstance", "issubclass", "type", "len", "bool", "callable", "hasattr", "id"}
OUT = {"print": "printed", "explorer_get": "sent to an explorer", "explorer_post": "sent to an explorer", "transaction_put": "sent to the network", "urlopen": "sent over the network", "Request": "sent over the network",
       "write": "written", "warn": "logged", "debug": "logged", "info": "logged", "warning": "logged", "error": "logged", "exception": "logged", "critical": "logged", "log": "logged", "system": "given to a command",
       "run": "given to a command", "Popen": "given to a command", "putenv": "put in the environment"}
CHANGE = {"append", "extend", "insert", "add", "update", "setdefault", "__setitem__"}


class Sum:
    def __init__(self):
        self.ret, self.out, self.into = NO, {}, {}   # out: token -> (module, line, what); into: parameter -> tokens that end up in it

    def key(self):
        return (self.ret, frozenset(self.out), frozenset((k, v) for k, v in self.into.items()))


class Flows:
    def __init__(self, repo):
        self.repo = repo
        self.methods, self.getters, self.setters = {}, {}, {}
        for f in repo.funcs.values():
            if f.cls is not None:
                t = {"getter": self.getters, "setter": self.setters}.get(f.kind, self.methods)
                t.setdefault(f.node.name, []).append(f)
        self.sums = {q: Sum() for q in repo.funcs}
        self.hold = set()                 # private fields of the wallet this version keeps secrets in
        with open(os.path.join(VERIF, "sa", "fieldnames.json")) as fh:
            self.reads = set(json.load(fh)) - {a for _, a in HOLD}
        self.rounds = self.sites = 0
        self.found = {}
        while self.rounds < 15:
            self.rounds += 1
            changed, held = False, len(self.hold)
            self.found, self.sites = {}, 0
            for q, f in repo.funcs.items():
                b = Body(self, f)
                s = b.run()
                for t, why in self.sums[q].out.items():
                    if t in s.out:
                        s.out[t] = why
                if b.found:
                    self.found[q] = b.found
                changed |= s.key() != self.sums[q].key()
                self.sums[q] = s
            if not changed and held == len(self.hold):
                break


class Body:
    def __init__(self, fx, f):
        self.fx, self.f, self.repo = fx, f, fx.repo
        self.s, self.found, self.env = Sum(), {}, {}
        a = f.node.args
        self.params = [p.arg for p in a.posonlyargs + a.args] + [p.arg for p in (a.vararg, a.kwarg) if p] + [p.arg for p in a.kwonlyargs]
        for p in self.params:
            self.env[p] = frozenset(["p:" + p])
        if f.qual == WALLET + ".__init__" and "seed" in self.env:
            self.env["seed"] |= {S}
        self.locals = bound(f.node)[0]
        self.me = f.node.args.args[0].arg if f.cls is not None and f.kind not in ("staticmethod", "classmethod") and f.node.args.args else None

    def run(self):
        for _ in range(3):
            for s in self.f.node.body:
                self.stmt(s)
        return self.s

    def leak(self, v, node, what):
        for t in v:
            if t == S:
                self.found.setdefault((node.lineno, what), (self.f.module, node, what))
            else:
                self.s.out.setdefault(t, (self.f.module, node.lineno, what))

    def ev(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return NO
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NO)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value)
            if (e.attr in ATTR or e.attr in self.fx.hold) and self.holder(e):
                return v | {S}
            return self.attr(e, v)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Compare):
            for c in [e.left] + e.comparators:
                self.ev(c)
            return NO
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.ev(e.operand)
            return NO
        if isinstance(e, COMP):
            for g in e.generators:
                self.assign(g.target, self.ev(g.iter))
                for c in g.ifs:
                    self.ev(c)
            return self.ev(e.key) | self.ev(e.value) if isinstance(e, ast.DictComp) else self.ev(e.elt)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.ev(e.value) if e.value is not None else NO
            self.s.ret |= v
            return NO
        out = NO
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ev(c)
        return out

    def holder(self, e):
        """an attribute of this name that holds a secret: any object but modules"""
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in self.locals and x.id not in self.env:
            r = self.repo.resolve_expr(self.f.module, e)
            return r is None
        return True

    def attr(self, e, v):
        gs = self.fx.getters.get(e.attr, [])
        if not gs:
            return v
        if not v:
            return v
        out = NO
        for g in self.mine(gs, e.value):
            out |= self.bind(g, [v], {}, e)
        return out | (v if S in v else NO)

    def mine(self, fs, recv):
        if isinstance(recv, ast.Name) and recv.id == self.me and self.f.cls is not None:
            c = self.f.cls.qual
            own = [g for g in fs if g.cls is not None and (g.cls.qual in self.repo.mro(c) or c in self.repo.mro(g.cls.qual))]
            return own
        return fs

    def bind(self, f, args, kws, node):
        s = self.fx.sums[f.qual]
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        val = {}
        for i, v in enumerate(args):
            n = names[i] if i < len(names) else a.vararg.arg if a.vararg else None
            if n:
                val[n] = val.get(n, NO) | v
        for k, v in kws.items():
            n = k if k in names or k in [p.arg for p in a.kwonlyargs] else a.kwarg.arg if a.kwarg else None
            for m in names if k is None else [n]:
                if m:
                    val[m] = val.get(m, NO) | v

        def m(ts):
            out = set()
            for t in ts:
                out |= val.get(t[2:], NO) if t.startswith("p:") else {t}
            return frozenset(out)
        for t, (mod, line, what) in s.out.items():
            if t.startswith("p:"):
                self.leak(val.get(t[2:], NO), node, what if " in %s:" % mod.rel in what else "%s in %s:%d" % (what, mod.rel, line))
        self.entered = {p: m(ts) for p, ts in s.into.items()}
        return m(s.ret) if f.qual not in GIVE else frozenset([S])

    def taint(self, x, v):
        """v is stored in the object named by expression x"""
        if not v:
            return
        while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.me:
                break
            x = x.func if isinstance(x, ast.Call) else x.value
        if isinstance(x, ast.Attribute):
            self.field(x, v)
        elif isinstance(x, ast.Name) and x.id in self.env | {}:
            self.store(x.id, v)

    def store(self, name, v):
        old = self.env.get(name, NO)
        new = frozenset(t for t in v if t != "p:" + name)
        self.env[name] = old | new
        if name in self.params and new:
            self.s.into[name] = self.s.into.get(name, NO) | new

    def field(self, x, v):
        """v is stored in a field of self"""
        c = self.f.cls.qual
        mro = set(self.repo.mro(c)) | {q for q in self.repo.classes if c in self.repo.mro(q)}
        if any((k, x.attr) in HOLD for k in mro):
            return
        if mro & {WALLET, KEY, INIT} and S in v:
            if not x.attr.startswith("_") or x.attr in self.fx.reads:
                self.leak(frozenset([S]), x, "kept in field %s" % x.attr)
            else:
                self.fx.hold.add(x.attr)  # a private field of its own: reading it is reading a secret
            return
        self.store(self.me, v)

    def call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kws = {}
        for k in e.keywords:
            kws[k.arg] = kws.get(k.arg, NO) | self.ev(k.value)
        allv = frozenset().union(*args, *kws.values()) if args or kws else NO
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else NO
        for x in list(e.args) + [k.value for k in e.keywords]:
            if isinstance(x, ast.Lambda):
                for p in x.args.args:
                    self.env[p.arg] = self.env.get(p.arg, NO) | recv | allv
                allv |= self.ev(x.body)
        self.fx.sites += 1
        if nm in OUT:
            self.leak(allv | (recv if nm == "transaction_put" and False else NO), e, OUT[nm])
        if nm in PUBLIC or nm == "int" and isinstance(fn, ast.Name) and len(args) == 1:
            return NO
        if nm in MAKE:
            return frozenset([S])
        # exact targets
        fs, kind = [], None
        if isinstance(fn, ast.Name) and fn.id in self.env and fn.id in self.params:
            if self.f.kind == "classmethod" and fn.id == self.params[0] and self.f.cls is not None:
                kind, fs = "new", self.ctor(self.f.cls.qual)
        elif isinstance(fn, ast.Name) and fn.id == "super":
            return self.env.get(self.me, NO) if self.me else NO
        else:
            r = self.repo.resolve_expr(self.f.module, fn) if self.global_base(fn) else None
            if r is not None and r[0] == "fn" and r[1] in self.repo.funcs:
                f = self.repo.funcs[r[1]]
                kind, fs = ("meth" if f.kind == "classmethod" else "fn"), [f]
            elif r is not None and r[0] == "cls" and r[1] in self.repo.classes:
                if any("Exception" in x or "Error" in x for x in self.repo.mro(r[1])):
                    return allv
                kind, fs = "new", self.ctor(r[1])
            elif isinstance(fn, ast.Attribute) and r is None:
                kind = "meth"
                if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
                    f = self.repo.lookup(self.f.cls.qual, nm, after=self.f.cls.qual)
                    fs = [f] if f is not None else []
                else:
                    fs = [g for g in self.mine(self.fx.methods.get(nm, []), fn.value) if None in kws or any(isinstance(a, ast.Starred) for a in e.args) or binds(g.node.args, len(e.args), [k.arg for k in e.keywords], 0 if g.kind == "staticmethod" else 1)]
        if kind == "new":
            out = NO
            if not fs:
                return allv
            for f in fs:
                self.bind(f, [NO] + args, kws, e)
                out |= self.entered.get(f.node.args.args[0].arg, NO)
            return out
        if fs:
            out = NO
            for f in fs:
                first = [] if kind == "fn" or f.kind == "staticmethod" else [recv]
                out |= self.bind(f, first + args, kws, e)
                ps = [p.arg for p in f.node.args.args]
                exprs = ([fn.value] if first else []) + list(e.args)
                for i, x in enumerate(exprs):
                    if i < len(ps):
                        self.taint(x, self.entered.get(ps[i], NO))
                for k in e.keywords:
                    if k.arg:
                        self.taint(k.value, self.entered.get(k.arg, NO))
            return out
        if isinstance(fn, ast.Attribute):
            if nm in CHANGE or S in allv:
                self.taint(fn.value, allv)
        return recv | allv

    def ctor(self, q):
        f = self.repo.lookup(q, "__init__")
        return [f] if f is not None else []

    def global_base(self, fn):
        x = fn
        while isinstance(x, ast.Attribute):
            x = x.value
        return isinstance(x, ast.Name) and x.id not in self.env and x.id not in self.locals

    def assign(self, x, v):
        if isinstance(x, ast.Name):
            self.env[x.id] = self.env.get(x.id, NO) | v if x.id not in self.params else self.env[x.id] | v
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.assign(y, v)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v)
        elif isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == self.me and self.f.cls is not None:
                ss = self.mine(self.fx.setters.get(x.attr, []), x.value)
                if ss:
                    for g in ss:
                        self.bind(g, [NO, v], {}, x)
                        self.store(self.me, self.entered.get(g.node.args.args[0].arg, NO))
                else:
                    self.field(x, v)
            else:
                for g in self.fx.setters.get(x.attr, []) if v else []:
                    self.bind(g, [NO, v], {}, x)
                self.taint(x.value, v)
        elif isinstance(x, ast.Subscript):
            self.taint(x.value, v)

    def stmt(self, s):
        if isinstance(s, FN):
            for b in s.body:
                self.stmt(b)
            return
        if isinstance(s, ast.Return):
            self.s.ret |= self.ev(s.value)
        elif isinstance(s, ast.Raise):
            v = self.ev(s.exc) if s.exc is not None else NO
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if not (isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) == "IntegerOutOfRange"):
                self.leak(v, s, "put in an error")    # the error about numbers names a number; secrets are bytes or text
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
            self.leak(self.ev(s.msg) if s.msg is not None else NO, s, "put in an error")
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for x in s.targets:
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(x.elts) == len(s.value.elts):
                    for y, z in zip(x.elts, s.value.elts):
                        self.assign(y, self.ev(z))
                else:
                    self.assign(x, v)
        elif isinstance(s, ast.AugAssign):
            self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.assign(s.target, self.ev(s.iter))
            self.body(s.body + s.orelse)
        elif isinstance(s, ast.If) and self.number(s.test):
            n = self.number(s.test)
            old = self.env.get(n, NO)
            self.env[n] = NO              # a number: secrets are bytes or text
            self.body(s.body)
            self.env[n] = self.env.get(n, NO) | old
            self.body(s.orelse)
        elif isinstance(s, (ast.While, ast.If)):
            self.ev(s.test)
            self.body(s.body + s.orelse)
        elif isinstance(s, ast.Try):
            self.body(s.body)
            for h in s.handlers:
                self.body(h.body)
            self.body(s.orelse + s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            self.body(s.body)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def number(self, t):
        """the name a test shows to be a number"""
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            k = t.args[1]
            if t.func.id == "isinstance" and isinstance(k, ast.Name) and k.id in ("int", "bool", "float") or t.func.id == "hasattr" and isinstance(k, ast.Constant) and k.value == "__int__":
                return t.args[0].id
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return next((n for n in map(self.number, t.values) if n), None)
        if isinstance(t, ast.BoolOp):
            ns = {self.number(v) for v in t.values}
            return ns.pop() if len(ns) == 1 else None
        return None

    def body(self, b):
        for s in b:
            self.stmt(s)


def p33(ctx):
    repo = ctx.repo
    known = ctx.known or set(repo.funcs)
    fx = Flows(repo)
    giving = 0
    for q, f in sorted(repo.funcs.items()):
        ctx.funcs.add(q)
        short = q[len(P):] if q.startswith(P) else q
        bad = ["%s:%d: a secret is %s" % (m.rel, n.lineno, what) for m, n, what in fx.found.get(q, {}).values()]
        ctx.ob("%s.leak" % short, not bad, f.where, lambda bad=bad: "; ".join(bad))
        if q in known:
            ok = q in GIVE or S not in fx.sums[q].ret or short in MAY_RETURN
            giving += S in fx.sums[q].ret
            ctx.ob("%s.result" % short, ok, f.where, "the result contains a secret of the wallet")
    ctx.notes.append("%d call sites followed, %d functions whose result is secret, fixpoint after %d rounds" % (fx.sites, giving, fx.rounds))
    ctx.need(fx.sites > 2500 and giving >= 3, "too little of the program was reached")


MAY_RETURN = set()
