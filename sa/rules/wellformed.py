"""P30: no operation fails by a mistake of the program itself (names, attributes, arguments, formats, unset fields)."""

import ast
import builtins
import importlib
import inspect
import string
import sys

from ..core import *
from ..lib import *

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
# names of third-party values (key objects, mnemonics): nothing is known about their arguments
THIRD = ("to_bytes", "to_mnemonic", "to_entropy", "to_seed", "generate", "get_verifying_key", "sign", "verify", "public_key", "private_key", "ascii", "to_ascii", "verify_key", "encode", "digest", "hexdigest")
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILTIN = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__class__", "__package__", "__spec__", "__builtins__"}


def targets(x, out):
    """names bound by an assignment target"""
    if isinstance(x, ast.Name):
        out.add(x.id)
    elif isinstance(x, (ast.Tuple, ast.List)):
        for y in x.elts:
            targets(y, out)
    elif isinstance(x, ast.Starred):
        targets(x.value, out)


def bound(node):
    """names a function, lambda or comprehension binds itself; (names, names declared global)"""
    out, free, glob = set(), set(), set()
    if isinstance(node, FN + (ast.Lambda,)):
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z is not None]:
            out.add(p.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
    elif isinstance(node, COMP):
        for g in node.generators:
            targets(g.target, out)
        return out, glob
    else:
        body = node.body

    def go(s):
        if isinstance(s, FN + (ast.ClassDef,)):
            out.add(s.name)
            for d in s.decorator_list:
                go(d)
            return
        if isinstance(s, ast.Lambda):
            return
        if isinstance(s, COMP):
            for y in ast.walk(s):
                if isinstance(y, ast.NamedExpr):
                    targets(y.target, out)
            return
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            out.add(s.id)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(s, ast.ExceptHandler) and s.name:
            out.add(s.name)
        elif isinstance(s, ast.Global):
            glob.update(s.names)
        elif isinstance(s, ast.Nonlocal):
            free.update(s.names)
        elif isinstance(s, (ast.MatchAs, ast.MatchStar)) and s.name:
            out.add(s.name)
        elif isinstance(s, ast.MatchMapping) and s.rest:
            out.add(s.rest)
        for c in ast.iter_child_nodes(s):
            go(c)
    for s in body:
        go(s)
    return out - glob - free, glob


def stdobj(dotted):
    """object of the standard library behind a dotted name: (known, object); known False outside the standard library"""
    parts = dotted.split(".")
    if parts[0] == "builtins" or parts[0] not in sys.stdlib_module_names:
        return False, None
    obj = None
    for n in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:n]))
        except ImportError:
            continue
        for p in parts[n:]:
            if not hasattr(obj, p):
                return True, None
            obj = getattr(obj, p)
        return True, obj
    return True, None


class Env:
    """what the names of one scope mean"""

    def __init__(self, lint, module, names, up=None, fn=None, kind="fn"):
        self.lint, self.module, self.names, self.up, self.fn, self.kind = lint, module, names, up, fn, kind
        self.meaning = {}


class Lint:
    def __init__(self, ctx):
        self.ctx, self.repo = ctx, ctx.repo
        self.count = {}
        self.known_attrs()

    # -- attribute names that exist anywhere --
    def known_attrs(self):
        r = self.repo
        self.methods, self.own = {}, set()
        for c in r.classes.values():
            for d in (c.methods, c.getters, c.setters, c.attrs, c.inner):
                self.own |= set(d)
            for n, f in c.methods.items():
                self.methods.setdefault(n, []).append(f)
        self.inst = {}
        for f in r.funcs.values():
            if f.cls is None or f.kind == "staticmethod" or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    self.inst.setdefault(f.cls.qual, set()).add(x.attr)
        for s in self.inst.values():
            self.own |= s
        self.patched = {}
        for m in r.modules.values():
            self.own |= {n for n in m.env if n != "*"}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    e = r.resolve_expr(m, x.value)
                    if e is not None and e[0] == "cls":
                        self.patched.setdefault(e[1], set()).add(x.attr)
                        self.own.add(x.attr)
        self.loads, self.stored = set(), set()
        for m in r.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute):
                    if isinstance(x.ctx, ast.Load):
                        self.loads.add(x.attr)
                    elif not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                        self.stored.add(x.attr)
                elif isinstance(x, ast.Call) and name_of(x) in ("namedtuple", "setattr", "Enum", "IntEnum", "NamedTuple", "make_dataclass", "SimpleNamespace"):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            self.own |= set(y.value.replace(",", " ").split())
                        elif isinstance(y, ast.keyword) and y.arg:
                            self.own.add(y.arg)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    self.own.add(x.target.id)
        self.ext, self.ext_types, self.builtin_methods = set(), [], {}
        for n in dir(builtins):
            o = getattr(builtins, n)
            if isinstance(o, type):
                self.ext_types.append(o)
                self.ext |= set(dir(o))
        self.loose = set()
        for m in r.modules.values():
            for x in ast.walk(m.tree):
                for n in ([a.name for a in x.names] if isinstance(x, ast.Import) else [x.module] if isinstance(x, ast.ImportFrom) and x.module and not x.level else ()):
                    if n.split(".")[0] in sys.stdlib_module_names:
                        try:
                            mod = importlib.import_module(n)
                        except ImportError:
                            continue
                        for k in dir(mod):
                            o = getattr(mod, k)
                            self.ext.add(k)
                            if isinstance(o, type):
                                self.ext_types.append(o)
                                self.ext |= set(dir(o))
                            elif callable(o):
                                self.loose.add(k)
        for n in ("http.client.HTTPResponse", "urllib.parse.ParseResult", "urllib.error.HTTPError", "threading.Thread", "re.Match", "re.Pattern", "hashlib.blake2b", "struct.Struct", "types.FunctionType", "types.CodeType",
                  "types.TracebackType"):
            ok, o = stdobj(n)
            if o is not None:
                self.ext_types.append(o)
                self.ext |= set(dir(o))
        self.loose |= set(THIRD)
        self.ext |= set(THIRD)
        self.ext |= {"digest", "hexdigest", "digest_size", "msg", "tb_frame", "tb_lineno", "tb_next", "f_code", "code", "reason", "headers"}

    def bad(self, key, node, msg):
        self.viol.append((key, node, msg))

    def tick(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    # -- meaning of expressions --
    def meaning(self, e, env):
        """entity an expression denotes, or None: repo entities plus ('inst', class), ('super', class), ('builtin', name)"""
        if isinstance(e, ast.Name):
            s, hop = env, False
            while s is not None:
                if s.kind == "class" and hop:
                    s = s.up
                    continue
                if e.id in s.names:
                    return s.meaning.get(e.id)
                hop = hop or s.kind in ("fn", "comp")
                s = s.up
            r = self.repo.resolve(env.module, e.id)
            if r:
                return r
            if e.id in env.module.env:
                return None
            return ("builtin", e.id) if e.id in BUILTIN else None
        if isinstance(e, ast.Attribute):
            b = self.meaning(e.value, env)
            if b is None:
                return None
            if b[0] in ("mod", "ext", "cls"):
                return self.repo.resolve_attr(b, e.attr)
            if b[0] == "inst" and b in self.fields and e.attr in self.fields[b]:
                return self.fields[b][e.attr]
            if b[0] in ("inst", "super"):
                f = self.repo.lookup(b[1], e.attr, after=b[1] if b[0] == "super" else None)
                return ("meth", f, b) if f is not None and e.attr not in self.instance(b[1]) else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = env
            while s is not None and (s.fn is None or s.fn.cls is None):
                s = s.up
            return ("super", s.fn.cls.qual) if s is not None else None
        if isinstance(e, ast.Call):
            b = self.meaning(e.func, env)
            if b is not None and b[0] == "cls" and not self.is_exotic(b[1]):
                return ("inst", b[1])
        if isinstance(e, ast.Constant) and e.value is not None and not isinstance(e.value, type(...)):
            return ("const", type(e.value))
        if isinstance(e, ast.JoinedStr):
            return ("const", str)
        return None

    def is_exotic(self, q):
        """classes whose call or attribute access the class body does not settle"""
        for c in self.repo.mro(q):
            k = self.repo.classes.get(c)
            if k is None:
                if c == "?" or c.startswith("ext:") and stdobj(c[4:])[1] is None or c.startswith("b:") and not hasattr(builtins, c[2:]):
                    return True
            elif k.node.keywords and any(w.arg == "metaclass" and getattr(w.value, "id", getattr(w.value, "attr", "")) != "ABCMeta" for w in k.node.keywords) or "__getattr__" in k.methods or "__getattribute__" in k.methods \
                    or "__new__" in k.methods or k.node.decorator_list:
                return True
        return False

    def instance(self, q):
        out = set()
        for c in self.repo.mro(q):
            out |= self.inst.get(c, set())
        return out

    def base_dirs(self, q):
        """attributes given by bases outside the repository; None when unknown"""
        out = set(dir(object))
        for c in self.repo.mro(q):
            if c in self.repo.classes:
                continue
            if c.startswith("b:") and hasattr(builtins, c[2:]):
                out |= set(dir(getattr(builtins, c[2:])))
            elif c.startswith("ext:"):
                ok, o = stdobj(c[4:])
                if o is None:
                    return None
                out |= set(dir(o)) | {"value", "name"}
            else:
                return None
        return out

    def class_names(self, q):
        out = set()
        for c in self.repo.mro(q):
            k = self.repo.classes.get(c)
            if k is not None:
                for d in (k.methods, k.getters, k.setters, k.attrs, k.inner):
                    out |= set(d)
                out |= self.patched.get(c, set())
                if "__getattr__" in k.methods or "__getattribute__" in k.methods:
                    return None
        b = self.base_dirs(q)
        return None if b is None else out | b | {"__name__", "__qualname__", "__module__"}

    def has(self, q, attr, instance=True):
        for c in [q] + (self.repo.subclasses(q) if instance else []):
            n = self.class_names(c)
            if n is None or attr in n or instance and attr in self.instance(c):
                return True
        return False

    # -- checks --
    def attribute(self, x, env, own):
        b = self.meaning(x.value, env)
        store = not isinstance(x.ctx, ast.Load)
        self.tick("attributes")
        if b is None or b[0] in ("expr", "unk", "meth", "fn"):
            if store and x.attr not in self.own and x.attr not in self.ext and x.attr not in self.loads:
                self.bad("attr.%s" % x.attr, x, "attribute %s is assigned, which no class has and nothing reads" % x.attr)
            if not store and x.attr not in self.own and x.attr not in self.ext and x.attr not in self.stored:
                self.bad("attr.%s" % x.attr, x, "attribute %s is read, which no class of the library or the standard library has" % x.attr)
            return
        if store:
            return
        if b[0] == "mod":
            if b[1] in self.repo.modules:
                if self.repo.resolve_attr(b, x.attr) is None and x.attr not in self.repo.modules[b[1]].env and not any(m.startswith(b[1] + "." + x.attr + ".") for m in self.repo.modules) \
                        and x.attr not in ("__name__", "__file__", "__doc__"):
                    self.bad("attr.%s" % x.attr, x, "module %s has no %s" % (b[1], x.attr))
            else:
                self.std(b[1], x)
        elif b[0] == "ext":
            self.std(b[1], x)
        elif b[0] == "cls":
            if not self.has(b[1], x.attr, False):
                self.bad("attr.%s" % x.attr, x, "class %s has no %s" % (b[1], x.attr))
        elif b[0] == "inst":
            if not self.has(b[1], x.attr):
                self.bad("attr.%s" % x.attr, x, "%s objects have no attribute %s" % (b[1].split(".")[-1], x.attr))
        elif b[0] == "super":
            order = self.repo.mro(b[1])[1:]
            n = self.base_dirs(b[1])
            if n is not None and x.attr not in n and not any(x.attr in d for c in order if c in self.repo.classes for d in (self.repo.classes[c].methods, self.repo.classes[c].getters, self.repo.classes[c].attrs)):
                self.bad("attr.%s" % x.attr, x, "no base of %s has %s" % (b[1], x.attr))
        elif b[0] == "const":
            if not hasattr(b[1], x.attr):
                self.bad("attr.%s" % x.attr, x, "%s has no attribute %s" % (b[1].__name__, x.attr))

    def std(self, dotted, x):
        ok, o = stdobj(dotted)
        if ok and o is not None and not hasattr(o, x.attr) and not stdobj(dotted + "." + x.attr)[1]:
            self.bad("attr.%s" % x.attr, x, "%s has no %s" % (dotted, x.attr))

    def call(self, x, env):
        self.tick("calls")
        star = any(isinstance(a, ast.Starred) for a in x.args)
        dstar = any(k.arg is None for k in x.keywords)
        n, kws = len(x.args), [k.arg for k in x.keywords if k.arg is not None]
        b = self.meaning(x.func, env)
        c = self.meaning(x.func.func, env) if isinstance(x.func, ast.Call) else None
        if isinstance(x.func, (ast.Constant, ast.JoinedStr, ast.Compare, ast.BoolOp, ast.List, ast.Tuple, ast.Dict, ast.Set) + COMP) or c is not None and c[0] == "builtin" and c[1] not in ("getattr", "type", "vars", "next", "max", "min", "super"):
            self.bad("call", x, "what is called is not a function")
        if isinstance(x.func, ast.Attribute) and x.func.attr == "format" and isinstance(x.func.value, (ast.Constant, ast.JoinedStr, ast.BinOp)) and not star and not dstar:
            s = text_of(x.func.value)
            if s is not None:
                self.fmt(x, s, n, kws)
        if star or dstar:
            return
        fs = None
        if b is not None and b[0] == "fn":
            f = self.repo.funcs.get(b[1])
            fs = [(f, 1 if f.cls is not None and f.kind == "classmethod" else 0)] if f is not None else None
        elif b is not None and b[0] == "meth":
            fs = [(b[1], 0 if b[1].kind == "staticmethod" else 1)]
        elif b is not None and b[0] == "cls":
            f = self.repo.lookup(b[1], "__init__")
            if f is not None:
                fs = [(f, 1)]
            elif all(c in self.repo.classes or c in ("b:object", "ext:abc.ABC") for c in self.repo.mro(b[1])) and not self.is_exotic(b[1]):
                if n or kws:
                    self.bad("call.%s" % name_of(x), x, "%s takes no arguments" % b[1])
                return
            self.instantiated.setdefault(b[1], x)
        elif b is not None and b[0] in ("builtin", "ext"):
            o = getattr(builtins, b[1], None) if b[0] == "builtin" else stdobj(b[1])[1]
            self.sig(x, o, n, kws)
            return
        elif b is None and isinstance(x.func, ast.Attribute):
            nm = x.func.attr
            v = self.meaning(x.func.value, env)
            if v is not None and v[0] == "const":
                o = getattr(v[1], nm, None)
                if o is not None:
                    self.sig(x, o, n + 1, kws)
                return
            if nm in self.methods and nm not in self.ext and nm not in self.fields_named:
                fs = [(f, 0 if f.kind == "staticmethod" else 1) for f in self.methods[nm]]
            elif nm in self.ext and nm not in self.own and nm not in self.loose:
                self.builtin_method(x, nm, n, kws)
        if fs and not any(f is None or f.node.decorator_list and f.kind in ("func", "method") and not abstract(f) or binds(f.node.args, n, kws, skip) for f, skip in fs):
            self.bad("call.%s" % name_of(x), x, "the arguments given to %s are not the ones it takes" % name_of(x))

    def builtin_method(self, x, nm, n, kws):
        """a method only built-in values have: one of them must take the arguments"""
        if nm not in self.builtin_methods:
            out = []
            for o in self.ext_types:
                if nm in dir(o):
                    out.append(getattr(o, nm))
            self.builtin_methods[nm] = out
        for o in self.builtin_methods[nm]:
            try:
                s = inspect.signature(o)
            except (ValueError, TypeError):
                return
            try:
                s.bind(*[None] * (n if isinstance(getattr(o, "__self__", None), type) or isinstance(o, type) else n + 1), **{k: None for k in kws})
                return
            except TypeError:
                pass
        if self.builtin_methods[nm]:
            self.bad("call.%s" % nm, x, "no %s of a built-in value takes the arguments given" % nm)

    def sig(self, x, o, n, kws):
        if o is None or not callable(o):
            return
        try:
            s = inspect.signature(o)
        except (ValueError, TypeError):
            lim = {"range": (1, 3), "int": (0, 2), "str": (0, 3), "bytes": (0, 3), "bytearray": (0, 3), "type": (1, 3), "getattr": (2, 3), "dict": (0, 1), "iter": (1, 2), "next": (1, 2)}.get(getattr(o, "__name__", ""))
            if lim is not None and not kws and not lim[0] <= n <= lim[1]:
                self.bad("call.%s" % name_of(x), x, "%s takes %d to %d arguments" % (name_of(x), lim[0], lim[1]))
            return
        try:
            s.bind(*[None] * n, **{k: None for k in kws})
        except TypeError as e:
            self.bad("call.%s" % name_of(x), x, "call of %s: %s" % (name_of(x), e))

    def fmt(self, x, s, n, kws):
        self.tick("formats")
        auto, need = 0, []

        def parse(text):
            nonlocal auto
            for _, field, spec, conv in string.Formatter().parse(text):
                if field is None:
                    continue
                head = field.split(".")[0].split("[")[0]
                if head == "":
                    need.append(auto)
                    auto += 1
                else:
                    need.append(int(head) if head.isdigit() else head)
                if spec:
                    parse(spec)
        try:
            parse(s)
        except ValueError as e:
            self.bad("format", x, "malformed format text: %s" % e)
            return
        for f in need:
            if isinstance(f, int) and f >= n or isinstance(f, str) and f not in kws:
                self.bad("format", x, "the format text uses argument %r, which is not given" % f)

    def percent(self, x):
        if not (isinstance(x.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(x.left, "value", None), (str, bytes))):
            return
        self.tick("formats")
        s = x.left.value
        s = s.decode("latin-1") if isinstance(s, bytes) else s
        import re
        specs = [z for z in re.findall(r"%(\([^)]*\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])", s) if z[3] != "%"]
        if any(z[0] for z in specs) or any("*" in z for z in specs):
            return
        if isinstance(x.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.right.elts):
            if len(x.right.elts) != len(specs):
                self.bad("format", x, "the format text takes %d values, %d are given" % (len(specs), len(x.right.elts)))
        elif isinstance(x.right, (ast.Constant, ast.JoinedStr)) and len(specs) != 1:
            self.bad("format", x, "the format text takes %d values, one is given" % len(specs))

    def exc(self, e, env, node, raising):
        self.tick("raised and caught exceptions")
        if isinstance(e, ast.Tuple) and not raising:
            for y in e.elts:
                self.exc(y, env, node, raising)
            return
        if raising and isinstance(e, ast.Call) and len(e.args) > 1 and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) and "{}" in e.args[0].value:
            self.bad("format", node, "the message has a placeholder, but its value is not formatted into it")
        target = e.func if raising and isinstance(e, ast.Call) else e
        b = self.meaning(target, env)
        if b is None:
            if raising and isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.BinOp, ast.JoinedStr, ast.Compare)):
                self.bad("raise", node, "what is raised is not an exception")
            return
        if b[0] == "cls":
            ok = False
            for c in self.repo.mro(b[1]):
                if c.startswith("b:") and isinstance(getattr(builtins, c[2:], None), type) and issubclass(getattr(builtins, c[2:]), BaseException) or c == "?":
                    ok = True
                if c.startswith("ext:"):
                    o = stdobj(c[4:])[1]
                    ok = ok or o is None or isinstance(o, type) and issubclass(o, BaseException)
            if not ok:
                self.bad("raise", node, "%s is not an exception class" % b[1])
        elif b[0] == "builtin":
            o = getattr(builtins, b[1], None)
            if not (isinstance(o, type) and issubclass(o, BaseException)):
                self.bad("raise", node, "%s is not an exception class" % b[1])
        elif b[0] == "ext":
            o = stdobj(b[1])[1]
            if isinstance(o, type) and not issubclass(o, BaseException):
                self.bad("raise", node, "%s is not an exception class" % b[1])
        elif b[0] in ("mod", "const", "inst") and (b[0] != "inst" or not raising):
            self.bad("raise", node, "what is %s is not an exception class" % ("raised" if raising else "caught"))

    # -- walking one scope --
    def walk(self, node, env):
        """checks every expression of a node in the given scope; nested scopes recursively"""
        if isinstance(node, FN + (ast.Lambda,)):
            if isinstance(node, FN):
                for d in node.decorator_list:
                    if not (isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter")):
                        self.walk(d, env)
            for d in node.args.defaults + [z for z in node.args.kw_defaults if z is not None]:
                self.walk(d, env)
            sub = Env(self, env.module, bound(node)[0], env, self.fn_of.get(id(node)))
            self.globals_ = bound(node)[1]
            f = sub.fn
            if f is not None and f.cls is not None and f.kind != "staticmethod" and node.args.args:
                me = node.args.args[0].arg
                if not any(isinstance(y, ast.Name) and y.id == me and isinstance(y.ctx, (ast.Store, ast.Del)) for y in ast.walk(node)):
                    sub.meaning[me] = ("cls", f.cls.qual) if f.kind == "classmethod" else ("inst", f.cls.qual)
                    if f.kind == "classmethod":
                        sub.meaning[me] = None
            self.single(node, sub)
            for s in node.body if isinstance(node.body, list) else [node.body]:
                self.walk(s, sub)
            self.locals_of(node, env)
            return
        if isinstance(node, COMP):
            sub = Env(self, env.module, bound(node)[0], env, None, "comp")
            self.walk(node.generators[0].iter, env)
            for i, g in enumerate(node.generators):
                if i:
                    self.walk(g.iter, sub)
                self.walk(g.target, sub)
                for c in g.ifs:
                    self.walk(c, sub)
            for c in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]):
                self.walk(c, sub)
            return
        if isinstance(node, ast.ClassDef):
            for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
                self.walk(d, env)
            sub = Env(self, env.module, bound(node)[0], env, None, "class")
            for s in node.body:
                self.walk(s, sub)
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            loc = self.repo.local_imports(env.module, node)
            for k, r in loc.items():
                if env.kind != "module":
                    env.meaning[k] = r
                self.tick("imports")
                if isinstance(node, ast.ImportFrom):
                    al = next(a for a in node.names if (a.asname or a.name) == k)
                    if r is not None and r[0] == "ext":
                        mod = r[1].rsplit(".", 1)[0]
                        if mod in self.repo.modules:
                            self.bad("import.%s" % al.name, node, "%s has no %s" % (mod, al.name))
                        else:
                            ok, o = stdobj(r[1])
                            if ok and o is None:
                                self.bad("import.%s" % al.name, node, "%s does not exist" % r[1])
                elif r[1].split(".")[0] == self.repo.package:
                    al = next(a for a in node.names)
                    for a in node.names:
                        if a.name not in self.repo.modules and not any(m.startswith(a.name + ".") for m in self.repo.modules):
                            self.bad("import.%s" % a.name, node, "module %s does not exist" % a.name)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            self.name(node, env)
        elif isinstance(node, ast.Attribute):
            self.attribute(node, env, None)
        elif isinstance(node, ast.Call):
            self.call(node, env)
        elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
            self.percent(node)
        elif isinstance(node, ast.Raise) and node.exc is not None:
            self.exc(node.exc, env, node, True)
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            self.exc(node.type, env, node, False)
        for c in ast.iter_child_nodes(node):
            self.walk(c, env)

    def single(self, node, sub):
        """local variables assigned once, from the construction of an object"""
        if isinstance(node, ast.Lambda):
            return
        stores = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
            elif isinstance(x, ast.ExceptHandler) and x.name:
                stores[x.name] = stores.get(x.name, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for n in x.names:
                    stores[n] = 9
            elif isinstance(x, ast.arg):
                stores[x.arg] = stores.get(x.arg, 0) + 1
        for x in ast.walk(node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores.get(x.targets[0].id) == 1 and isinstance(x.value, (ast.Call, ast.Attribute)):
                m = self.meaning(x.value, sub)
                if m is not None and m[0] == "inst":
                    sub.meaning[x.targets[0].id] = m
            elif isinstance(x, ast.ExceptHandler) and x.name and stores.get(x.name) == 1 and x.type is not None and not isinstance(x.type, ast.Tuple):
                m = self.meaning(x.type, sub)
                if m is not None and m[0] == "cls" and not self.is_exotic(m[1]):
                    sub.meaning[x.name] = ("inst", m[1])

    def field_types(self):
        """fields whose every assignment in the class constructs the same class of object"""
        vals = {}
        for f in self.repo.funcs.values():
            if f.cls is None or f.kind == "staticmethod" or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for tg in x.targets:
                        for y in ast.walk(tg):
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and isinstance(y.ctx, ast.Store):
                                ok = y is tg and isinstance(x.value, ast.Call)
                                r = self.repo.resolve_expr(f.module, x.value.func) if ok and not any(isinstance(z, ast.Name) and z.id in bound(f.node)[0] for z in ast.walk(x.value.func)) else None
                                vals.setdefault((f.cls.qual, y.attr), []).append(("inst", r[1]) if r is not None and r[0] == "cls" and not self.is_exotic(r[1]) else None)
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                    for y in ast.walk(x.target if not isinstance(x, ast.With) else x):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and isinstance(y.ctx, ast.Store):
                            vals.setdefault((f.cls.qual, y.attr), []).append(None) if not isinstance(x, ast.With) else None
        self.fields = {}
        for q in self.repo.classes:
            near = [c for c in set(self.repo.mro(q)) | {d for c in self.repo.mro(q) if c in self.repo.classes for d in self.repo.subclasses(c)} if c in self.repo.classes]
            names = {a for c, a in vals if c in near}
            for a in names:
                if a in self.class_names(q) if self.class_names(q) is not None else True:
                    continue
                vs = {v for c in near for v in vals.get((c, a), [])}
                if len(vs) == 1 and None not in vs:
                    self.fields.setdefault(("inst", q), {})[a] = vs.pop()

    def name(self, node, env):
        self.tick("names")
        s, hop = env, False
        while s is not None:
            if not (s.kind == "class" and hop) and node.id in s.names:
                return
            hop = hop or s.kind in ("fn", "comp")
            s = s.up
        m = env.module
        if node.id in m.env or node.id in BUILTIN or self.repo.resolve(m, node.id) is not None or node.id in self.module_names[m.name]:
            return
        if any(b not in self.repo.modules for b in m.env.get("*", [])):
            return
        self.bad("name.%s" % node.id, node, "name %s is not defined" % node.id)

    def locals_of(self, node, env):
        """a local variable that no path can have assigned when it is read"""
        if isinstance(node, ast.Lambda):
            return
        mine, _ = bound(node)
        a = node.args
        pre = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z is not None]}
        self.tick("functions checked for unset variables")
        for nm, x in Flow(mine, True).function(node, pre):
            self.bad("unset.%s" % nm, x, "local variable %s is read on a path that assigns nothing to it" % nm)

    def run(self):
        r = self.repo
        self.fn_of = {id(f.node): f for f in r.funcs.values()}
        self.instantiated = {}
        self.fields_named = set()
        for s in self.inst.values():
            self.fields_named |= s
        for c in r.classes.values():
            self.fields_named |= set(c.getters)
        self.fields = {}
        self.field_types()
        self.module_names = {m.name: bound(m.tree)[0] for m in r.modules.values()}
        out = []
        for m in r.modules.values():
            env = Env(self, m, set(), None, None, "module")
            for s in m.tree.body:
                self.viol = []
                self.walk(s, env)
                for k, n, msg in self.viol:
                    out.append((m, k, n, msg))
        return out


class Flow:
    """names that may (or, with must, are sure to) be assigned; reports reads of other names"""

    def __init__(self, names, must=False):
        self.names = names
        self.must = must
        self.out = []
        self.seen = set()

    def function(self, node, pre):
        self.stack = []
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node)):
            return []
        self.block(node.body, set(pre))
        return self.out

    def use(self, e, cur):
        for x in nodes_in_order(e):
            if isinstance(x, ast.Name) and x.id in self.names:
                if isinstance(x.ctx, ast.Load) and x.id not in cur and id(x) not in self.seen:
                    self.seen.add(id(x))
                    self.out.append((x.id, x))
                elif isinstance(x.ctx, ast.Store):
                    cur.add(x.id)

    def block(self, body, cur):
        """cur None: unreachable"""
        for s in body:
            if cur is None:
                return None
            cur = self.stmt(s, cur)
        return cur

    def join(self, *cs):
        cs = [c for c in cs if c is not None]
        return None if not cs else set.intersection(*cs) if self.must else set().union(*cs)

    def stmt(self, s, cur):
        if isinstance(s, FN + (ast.ClassDef,)):
            return cur | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return cur | {a.asname or a.name.split(".")[0] for a in s.names}
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.use(e, cur)
            return None
        if isinstance(s, ast.Break):
            self.stack[-1][0] = self.join(self.stack[-1][0], cur)
            return None
        if isinstance(s, ast.Continue):
            self.stack[-1][1] = self.join(self.stack[-1][1], cur)
            return None
        if isinstance(s, ast.If):
            self.use(s.test, cur)
            return self.join(self.block(s.body, set(cur)), self.block(s.orelse, set(cur)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                # what the body may assign is in scope from the second round on
                pass
            else:
                self.use(s.iter, cur)
            start = set(cur)
            for x in () if self.must else ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    start.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    start.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    start |= {a.asname or a.name.split(".")[0] for a in x.names}
                elif isinstance(x, FN + (ast.ClassDef,)):
                    start.add(x.name)
            if isinstance(s, ast.While):
                self.use(s.test, start)
            self.stack.append([None, None])
            inner = set(start)
            if not isinstance(s, ast.While):
                self.use(s.target, inner)
            end = self.block(s.body, inner)
            brk, cont = self.stack.pop()
            if self.must and not isinstance(s, ast.While):
                targets(s.target, start)     # a loop variable read after its loop: the collections involved are never empty there
            done = self.join(end, cont, start)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                return brk
            els = self.block(s.orelse, set(done)) if s.orelse else done
            return self.join(els, brk)
        if isinstance(s, ast.Try):
            body = self.block(s.body, set(cur))
            every = set(cur)
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        every.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        every |= {a.asname or a.name.split(".")[0] for a in x.names}
            ends = [self.block(s.orelse, set(body)) if s.orelse and body is not None else body]
            for h in s.handlers:
                c = set(every)
                if h.type is not None:
                    self.use(h.type, c)
                if h.name:
                    c.add(h.name)
                e = self.block(h.body, c)
                ends.append(e - {h.name} if e is not None and h.name else e)
            j = self.join(*ends)
            if s.finalbody:
                f = self.block(s.finalbody, set(cur) if self.must else set(every) | (j or set()))
                return None if j is None or f is None else f | j
            return j
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, cur)
                if i.optional_vars is not None:
                    self.use(i.optional_vars, cur)
            end = self.block(s.body, set(cur))
            return end if end is not None else None
        if isinstance(s, ast.Assign):
            self.use(s.value, cur)
            for x in s.targets:
                self.use(x, cur)
            return cur
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), cur)
            self.use(s.value, cur)
            self.use(s.target, cur)
            return cur
        if isinstance(s, ast.Delete):
            for x in s.targets:
                if isinstance(x, ast.Name):
                    cur = cur - {x.id}
                else:
                    self.use(x, cur)
            return cur
        if isinstance(s, ast.Match):
            return cur | {n for x in ast.walk(s) for n in ([x.name] if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name else [x.id] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else [])}
        for e in ast.iter_child_nodes(s):
            self.use(e, cur)
        return cur


def nodes_in_order(e):
    """nodes of an expression in evaluation order, without the bodies of nested functions"""
    if isinstance(e, ast.Lambda):
        for d in e.args.defaults:
            yield from nodes_in_order(d)
        return
    if isinstance(e, COMP):
        yield from nodes_in_order(e.generators[0].iter)
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                yield x.target
        return
    if isinstance(e, ast.NamedExpr):
        yield from nodes_in_order(e.value)
        yield e.target
        return
    yield e
    for c in ast.iter_child_nodes(e):
        yield from nodes_in_order(c)


def text_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = text_of(e.left), text_of(e.right)
        return None if a is None or b is None else a + b
    return None


def name_of(x):
    f = x.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "?"


def abstract(f):
    return any((d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")).startswith("abstract") for d in f.node.decorator_list)


def binds(a, n, kws, skip):
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    only = {p.arg for p in a.posonlyargs}
    if n > len(pos) and a.vararg is None:
        return False
    given = set(pos[:n])
    names = set(pos) - only | {p.arg for p in a.kwonlyargs}
    for k in kws:
        if k in given or k not in names and a.kwarg is None or kws.count(k) > 1:
            return False
        given.add(k)
    req = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    reqk = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return all(p in given for p in req + reqk)



class Fields:
    """which fields of self are sure to be assigned after a method, and which it reads before that"""

    def __init__(self, repo, cls):
        self.repo, self.cls = repo, cls
        self.memo = {}
        self.order = [c for c in repo.mro(cls) if c in repo.classes]
        self.static = set()
        for c in self.order:
            k = repo.classes[c]
            self.static |= set(k.attrs) | set(k.inner) | set(k.methods) | set(k.getters) | set(k.setters)

    def find(self, name, table, after=None):
        return self.repo.lookup(self.cls, name, table, after)

    def method(self, f):
        """(fields assigned on every normal exit, {field: first read not preceded by an assignment})"""
        key = f.qual
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (set(), {})
        if f.kind == "staticmethod" or f.kind == "classmethod" or not f.node.args.args:
            return self.memo[key]
        w = FieldWalk(self, f)
        end = w.block(f.node.body, set())
        ends = [e for e in w.exits + [end] if e is not None]
        self.memo[key] = (set.intersection(*ends) if ends else None, w.reads)
        return self.memo[key]


class FieldWalk:
    def __init__(self, fields, f):
        self.fs, self.f = fields, f
        self.me = f.node.args.args[0].arg
        self.reads, self.exits, self.loops = {}, [], []

    def enter(self, f, cur):
        """effect of calling a method of the same object"""
        a, r = self.fs.method(f)
        for k, x in r.items():
            if k not in cur:
                self.reads.setdefault(k, x)
        return set(cur) if a is None else cur | a

    def expr(self, e, cur):
        """evaluate an expression: reads recorded, the assigned fields returned"""
        fs = self.fs
        if isinstance(e, ast.Lambda):
            return cur
        if isinstance(e, ast.Call):
            fn = e.func
            tgt = None
            if isinstance(fn, ast.Attribute):
                if isinstance(fn.value, ast.Name) and fn.value.id == self.me:
                    tgt = fs.find(fn.attr, "methods")
                elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
                    tgt = fs.find(fn.attr, "methods", self.f.cls.qual)
                elif isinstance(fn.value, (ast.Name, ast.Attribute)) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                    r = fs.repo.resolve_expr(self.f.module, fn.value)
                    if r is not None and r[0] == "cls" and r[1] in fs.order:
                        tgt = fs.repo.lookup(r[1], fn.attr)
            if tgt is not None:
                for x in e.args + [k.value for k in e.keywords]:
                    cur = self.expr(x, cur)
                return self.enter(tgt, cur)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and isinstance(e.ctx, (ast.Load, ast.Del)):
            g = fs.find(e.attr, "getters")
            if g is not None:
                return self.enter(g, cur)
            if e.attr not in fs.static and e.attr not in cur:
                self.reads.setdefault(e.attr, (self.f, e))
            return cur
        if isinstance(e, ast.BoolOp):
            out = self.expr(e.values[0], cur)
            for v in e.values[1:]:
                self.expr(v, set(out))
            return out
        if isinstance(e, ast.IfExp):
            cur = self.expr(e.test, cur)
            return self.expr(e.body, set(cur)) & self.expr(e.orelse, set(cur))
        if isinstance(e, COMP):
            cur = self.expr(e.generators[0].iter, cur)
            for g in e.generators:
                for c in g.ifs + ([g.iter] if g is not e.generators[0] else []):
                    self.expr(c, set(cur))
            for c in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self.expr(c, set(cur))
            return cur
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                cur = self.expr(c, cur)
        return cur

    def store(self, x, cur):
        fs = self.fs
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                cur = self.store(y, cur)
            return cur
        if isinstance(x, ast.Starred):
            return self.store(x.value, cur)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.me:
            st = fs.find(x.attr, "setters")
            if st is not None:
                return self.enter(st, cur)
            return cur | {x.attr}
        return self.expr(x, cur)

    def block(self, body, cur):
        for s in body:
            if cur is None:
                return None
            cur = self.stmt(s, cur)
        return cur

    @staticmethod
    def join(*cs):
        cs = [c for c in cs if c is not None]
        return set.intersection(*cs) if cs else None

    def stmt(self, s, cur):
        if isinstance(s, FN + (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return cur
        if isinstance(s, ast.Return):
            if s.value is not None:
                cur = self.expr(s.value, cur)
            self.exits.append(cur)
            return None
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    cur = self.expr(e, cur)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loops[-1].append(cur) if isinstance(s, ast.Break) else None
            return None
        if isinstance(s, ast.If):
            cur = self.expr(s.test, cur)
            return self.join(self.block(s.body, set(cur)), self.block(s.orelse, set(cur)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            cur = self.expr(s.test if isinstance(s, ast.While) else s.iter, cur)
            self.loops.append([])
            self.block(s.body, set(cur) if isinstance(s, ast.While) else self.store(s.target, set(cur)))
            brk = self.loops.pop()
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                return self.join(*brk)
            return self.join(self.block(s.orelse, set(cur)), *brk)
        if isinstance(s, ast.Try):
            body = self.block(s.body, set(cur))
            ends = [self.block(s.orelse, set(body)) if s.orelse and body is not None else body]
            ends += [self.block(h.body, set(cur)) for h in s.handlers]
            j = self.join(*ends)
            if s.finalbody:
                f = self.block(s.finalbody, set(cur))
                return None if j is None or f is None else j | f
            return j
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                cur = self.expr(i.context_expr, cur)
                if i.optional_vars is not None:
                    cur = self.store(i.optional_vars, cur)
            return self.block(s.body, cur)
        if isinstance(s, ast.Assign):
            cur = self.expr(s.value, cur)
            for x in s.targets:
                cur = self.store(x, cur)
            return cur
        if isinstance(s, ast.AnnAssign):
            return cur if s.value is None else self.store(s.target, self.expr(s.value, cur))
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Attribute):
                cur = self.expr(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target), cur)
            return self.store(s.target, self.expr(s.value, cur))
        if isinstance(s, ast.Match):
            cur = self.expr(s.subject, cur)
            return self.join(cur, *[self.block(c.body, set(cur)) for c in s.cases])
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                cur = self.expr(e, cur)
        return cur


def fields_rule(repo):
    """yield (class, field, function, node, message) for fields read although the constructor need not have set them; count of (class, method) pairs"""
    n, out = 0, []
    for q, c in repo.classes.items():
        if missing(repo, q) or any(b not in repo.classes and b not in ("b:object", "ext:abc.ABC") for b in repo.mro(q)):
            continue
        fs = Fields(repo, q)
        init = repo.lookup(q, "__init__")
        have, early = (fs.method(init) if init is not None else (set(), {}))
        if have is None:
            continue
        for k, (f, x) in early.items():
            out.append((q, k, f, x, "constructing a %s reads self.%s before anything is assigned to it" % (c.name, k)))
        seen = set()
        for b in fs.order:
            k = repo.classes[b]
            for table in (k.methods, k.getters, k.setters):
                for nm, f in table.items():
                    if nm == "__init__" or (nm, id(table)) in seen:
                        continue
                    n += 1
                    for fld, (g, x) in fs.method(f)[1].items():
                        if fld not in have and fld not in fs.static:
                            out.append((q, fld, g, x, "self.%s is read, which constructing a %s does not always assign" % (fld, c.name)))
    return n, out


def missing(repo, q):
    """abstract methods a class leaves without an implementation"""
    done, out = set(), []
    for b in repo.mro(q):
        k = repo.classes.get(b)
        if k is None:
            continue
        for table in (k.methods, k.getters):
            for nm, f in table.items():
                if nm not in done:
                    done.add(nm)
                    if abstract(f):
                        out.append(nm)
        done |= set(k.attrs)
    return out


def leaves(repo):
    """concrete classes: those nothing else derives from, or that the program instantiates"""
    return [q for q in repo.classes if repo.subclasses(q) == [q]]


def p30(ctx):
    repo = ctx.repo
    lint = Lint(ctx)
    found = lint.run()
    where = {}
    for m in repo.modules.values():
        for f in repo.funcs.values():
            if f.module is m:
                for x in ast.walk(f.node):
                    where.setdefault(id(x), f.qual)
    hit = {}
    for m, k, x, msg in found:
        q = where.get(id(x), m.name)
        hit.setdefault(q, {}).setdefault(k, (m, x, msg))
    for q in sorted(set(repo.funcs) | {m.name for m in repo.modules.values()}):
        f = repo.funcs.get(q)
        ctx.ob("%s.mistakes" % q, not hit.get(q), f.where if f is not None else "", lambda q=q: "; ".join("%s:%d: %s" % (m.rel, getattr(x, "lineno", 0), msg) for m, x, msg in hit[q].values()))
        if f is not None:
            ctx.funcs.add(q)
    ctx.events += sum(lint.count.values())
    ctx.notes.append("checked: " + ", ".join("%d %s" % (v, k) for k, v in sorted(lint.count.items())))
    n, unset = fields_rule(repo)
    ctx.notes.append("%d (class, method) pairs checked for fields read before they are assigned" % n)
    for q in sorted(repo.classes):
        mine = {}
        for c, fld, f, x, msg in unset:
            if c == q:
                mine.setdefault(fld, "%s:%d: %s" % (f.module.rel, x.lineno, msg))
        k = repo.classes[q]
        ctx.ob("%s.fields" % q, not mine, "%s:%d" % (k.module.rel, k.node.lineno), lambda mine=mine: "; ".join(mine.values()))
    for q in sorted(set(leaves(repo)) | set(lint.instantiated)):
        k = repo.classes.get(q)
        if k is not None:
            miss = missing(repo, q)
            ctx.ob("%s.abstract" % q, not miss, "%s:%d" % (k.module.rel, k.node.lineno), "%s leaves %s without an implementation" % (k.name, ", ".join(miss)))
    ctx.need(lint.count.get("calls", 0) > 2500 and lint.count.get("attributes", 0) > 3500 and lint.count.get("formats", 0) > 200 and n > 1000, "too little of the program was reached")
