"""Shared rule machinery.

A rule compares what a repository function does with a *reference*: a small table written in Python
syntax in the rule, parsed (never executed) and interpreted by the same gated value analysis.
Comparison is semantic: guard formulas are compared as Boolean functions, values as normalised terms
under every consistent combination of guards, so that the way the code is written does not matter."""

import ast
import textwrap

from .core import *
from .core import simplify, short
from .interp import mk_exists
from . import terms
from .logic import Logic
from .model import Func, Module, AnalysisBroken
from .terms import *
from .terms import T, t

ENC_OPAQUE = ("sia_binary_encode", "rivine_binary_encode", "sia_binary_encode_data", "rivine_binary_encode_data")
ENC_GET = ("tfchain.encoders.encoder_sia_get", "tfchain.encoders.encoder_rivine_get")

_specmod = {}


def spec_module(ctx):
    r = ctx.repo
    m = _specmod.get(id(r))
    if m is None:
        m = Module("spec", "spec", "spec", ast.parse(""), "")
        for q, c in r.classes.items():
            if "." not in q[len(c.module.name) + 1:]:
                m.env[c.name] = ("cls", q)
        for q, f in r.funcs.items():
            if f.cls is None and q == f.module.name + "." + f.node.name and f.node.name not in ("from_json", "new"):
                m.env.setdefault(f.node.name, ("fn", q))
        for name, mod in r.modules.items():
            m.env.setdefault(name.split(".")[-1], ("mod", name))
        for n in ("hashlib", "ipaddress", "re", "datetime", "json", "random", "os", "secrets", "time", "base64", "math", "decimal", "functools", "itertools", "urllib", "sys", "unicodedata", "struct"):
            m.env[n] = ("mod", n)
        _specmod[id(r)] = m
    return m


def pair(ctx, fn, sp, **kw):
    """run a function and its reference on the same symbolic parameters (matched by position); parameters the reference does
    not have take their default"""
    a, b = fn.node.args, sp.node.args
    pa, pb = [x.arg for x in a.posonlyargs + a.args], [x.arg for x in b.posonlyargs + b.args]
    if fn.kind in ("method", "getter", "setter", "deleter", "classmethod"):
        pa = pa[1:]
    if sp.kind in ("method", "getter", "setter", "deleter", "classmethod"):
        pb = pb[1:]
    args = dict(kw.pop("args", None) or {})
    sargs = {}
    for x, y in zip(pa, pb):
        sargs[y] = args.get(x, var(x))
    if a.vararg and b.vararg:
        sargs[b.vararg.arg] = args.get(a.vararg.arg, var(a.vararg.arg))
    if a.kwarg and b.kwarg:
        sargs[b.kwarg.arg] = args.get(a.kwarg.arg, var(a.kwarg.arg))
    for y in pb[len(pa):] + [x.arg for x in b.kwonlyargs]:
        sargs.setdefault(y, var(y))
    df = dict(zip(reversed(pa), reversed(a.defaults)))
    for x in pa[len(pb):]:
        d = df.get(x)
        if isinstance(d, ast.Constant):
            args.setdefault(x, const(d.value))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in [y.arg for y in b.kwonlyargs] and isinstance(d, ast.Constant):
            args.setdefault(x.arg, const(d.value))
    ra = ctx.run(fn, args=args, **kw)
    rb = ctx.run(sp, args=sargs, **kw)
    last = lambda p, m: m.get(p, var(p)) if p is not None else None
    return ra, rb, last(pa[len(pb) - 1] if pb and len(pa) >= len(pb) else pa[-1] if pa else None, args), last(pb[-1] if pb else None, sargs)


_n = [0]


def spec(ctx, src, cls=None, kind=None):
    """parse a reference function"""
    node = ast.parse(textwrap.dedent(src).strip() + "\n").body[0]
    m = spec_module(ctx)
    _n[0] += 1
    c = ctx.repo.classes.get(cls) if cls else None
    if cls and c is None:
        raise AnalysisBroken("anchor class %s not found" % cls)
    kind = kind or ("method" if cls else "func")
    if kind in ("staticmethod", "classmethod"):
        first = [p.arg for p in node.args.posonlyargs + node.args.args][:1]
        kind = "classmethod" if first and first[0] in ("cls", "self") else "staticmethod"
    return Func("spec.%s%d" % (node.name, _n[0]), node, m, c, kind)


def strip(x):
    """drop int()/bytes()/bytearray()/list()/str-of-str wrappers that do not change the encoded content"""
    while x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("int", "bytes", "bytearray", "list", "tuple") and len(x.args[1]) == 1 \
            and not x.args[2]:
        y = x.args[1][0]
        if x.args[0].args[0] in ("bytes", "bytearray") and y.tag in ("list", "tuple"):
            break
        x = y
    return x


def const_bytes(x):
    x = strip(x)
    if is_const(x) and isinstance(cval(x), (bytes, bytearray)):
        return bytes(cval(x))
    if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("bytes", "bytearray") and len(x.args[1]) == 1 and x.args[1][0].tag in ("list", "tuple"):
        out = []
        for e in x.args[1][0].args[0]:
            e = strip(e)
            if not is_const(e):
                return None
            out.append(cval(e))
        try:
            return bytes(out)
        except (ValueError, TypeError):
            return None
    return None


def one_byte(x):
    """bytearray([e]) / bytes([e]) / e.to_bytes(1, ..) -> e"""
    if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("bytes", "bytearray") and len(x.args[1]) == 1:
        y = x.args[1][0]
        if y.tag in ("list", "tuple") and len(y.args[0]) == 1:
            return y.args[0][0]
        return one_byte(y)
    if x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "to_bytes":
        k = dict(x.args[2])
        n = x.args[1][0] if x.args[1] else k.get("length", const(1))
        if n is const(1):
            return x.args[0].args[0]
    b = const_bytes(x)
    if b is not None and len(b) == 1:
        return const(b[0])
    return None


def digest_of(x):
    """(algorithm, arguments) of a digest value, however rendered (digest / hexdigest / hex and back)"""
    x = strip(x)
    if x.tag != "call":
        return None
    f, a = x.args[0], x.args[1]
    if f.tag == "fn" and f.args[0] == "tfchain.internal.jsutils.blake2":      # its own rule pins it to blake2b
        k = dict(x.args[2])
        return ("blake2b", repr(a[1] if len(a) > 1 else k.get("digest_size", const(32))), tuple(a[:1]), ())
    if f.tag == "a" and f.args[1] == "digest" and not a:
        h = f.args[0]
        if h.tag == "call":
            return _alg(h)
    n = f.args[0] if f.tag in ("b", "ext") else f.args[1] if f.tag == "a" else None
    if isinstance(n, str) and n.endswith("fromhex") and len(a) == 1:
        y = a[0]
        if y.tag == "call" and y.args[0].tag == "fn" and y.args[0].args[0] == "tfchain.internal.jsutils.blake2_string":
            k = dict(y.args[2])
            return ("blake2b", repr(y.args[1][1] if len(y.args[1]) > 1 else k.get("digest_size", const(32))), tuple(y.args[1][:1]), ())
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] == "hexdigest" and y.args[0].args[0].tag == "call":
            return _alg(y.args[0].args[0])
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] == "hex":
            return digest_of(y.args[0].args[0])
    return None


def _alg(h):
    f = h.args[0]
    n = f.args[0] if f.tag in ("b", "ext") else f.args[1] if f.tag == "a" else repr(f)
    n = str(n).split(".")[-1]
    if n not in ("blake2b", "sha256", "sha512", "blake2s", "md5", "sha1", "sha3_256"):
        return None
    k = dict(h.args[2])
    size = k.pop("digest_size", None)
    return (n, repr(size), tuple(h.args[1]), tuple(sorted(k)))


_cc = {}


def class_const(ctx, x):
    """value of a class constant assigned after the class body (Class.NAME = expr), else the term itself"""
    if x.tag != "a" or x.args[0].tag != "cls":
        return x
    q, n = x.args[0].args[0], x.args[1]
    c = ctx.repo.classes.get(q)
    if c is None:
        return x
    k = (id(ctx.repo), q, n)
    if k not in _cc:
        v = x
        want = q[len(c.module.name) + 1:]
        for s in ast.walk(c.module.tree):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == n \
                    and ast.unparse(s.targets[0].value) == want:
                v = ctx.interp(["tfchain"])._const_expr(c.module, s.value, None)
        _cc[k] = v
    return _cc[k]


# ------------------------------------------------------------------ term equality under an assumption

def listy(x):
    """evidently a list built here (not bytes, not a number)"""
    if x.tag in ("list", "map", "flatmap", "extend"):
        return True
    if x.tag == "cat":
        return listy(x.args[0])
    if x.tag == "op" and x.args[0] == "+":
        return any(listy(y) for y in x.args[1:])
    return x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "list" and len(x.args[1]) == 1 and not x.args[2]


def segments(x):
    if x.tag == "list" and not any(y.tag == "star" for y in x.args[0]):
        return [("one", y) for y in x.args[0]]
    if x.tag == "list":
        return [s for y in x.args[0] for s in (segments(y.args[0]) if y.tag == "star" else [("one", y)])]
    if x.tag == "extend" and len(x.args) == 2:
        return segments(x.args[0]) + segments(x.args[1])
    if x.tag == "cat":
        return segments(x.args[0]) + [("one", x.args[1])]
    if x.tag == "op" and x.args[0] == "+" and listy(x):
        p, q = x.args[1:]
        if q.tag == "sum" and q.args[0].tag == "map":
            m = q.args[0]
            return segments(p) + segments(t("flatmap", *m.args))
        return segments(p) + segments(q)
    if x.tag == "call" and listy(x):
        return segments(x.args[1][0])
    if x.tag == "flatmap" and len(x.args) == 3:
        v, it, g = x.args
        s = segments(v)
        if len(s) == 1 and s[0][0] == "one":
            return segments(t("map", s[0][1], it, g))
        if len(s) == 1 and s[0][0] == "all":
            return [("flat", s[0][1], it, g)]
    if x.tag == "map" and len(x.args) == 3:
        v, it, g = x.args
        if v.tag == "elem" and v.args[0] is it and g is TRUE:
            return segments(it)
        return [("many", v, it, g)]
    return [("all", x)]


def per_element(assume, it):
    """what `no element is such that ...` says about the element at hand"""
    out = []
    for c in walk(assume):
        if c.tag == "exists" and c.args[0] is it and Logic().implies(assume, mk_not(c)):
            out.append(mk_not(c.args[1]))
    return mk_and(*out)


def flat_op(x):
    out = []
    for y in x.args[1:]:
        out += flat_op(y) if y.tag == "op" and y.args[0] == x.args[0] else [y]
    return out


def is_closed(c):
    return not mentions(c, lambda y: y.tag in ("elem", "idx", "phi"))


def unite(x, y, k):
    """x with its alternative y settled on branch k"""
    return subst(x, lambda z: y.args[k] if z is y else None)


class Eq:
    """equality of value terms under a guard; `hook(a, b, assume)` may decide a pair"""

    def __init__(self, hook=None):
        self.hook = hook
        self.memo = {}

    def same(self, a, b, assume=TRUE):
        if a is b and not (self.hook is not None and has_enc(a)):
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
                self.same(x, y, assume) for x, y in zip(a, b))
        if not isinstance(a, T) or not isinstance(b, T):
            return a == b
        k = (a.uid, b.uid, assume.uid)
        if k in self.memo:
            return self.memo[k]
        r = self._same(a, b, assume)
        if not r and a.tag != "ite" and b.tag != "ite":
            r = self._by_cases(a, b, assume)
        self.memo[k] = r
        return r

    splits = 0

    def _by_cases(self, a, b, assume):
        """terms that hold a choice somewhere inside: compared on each side of it"""
        g = Logic()._gate(a) or Logic()._gate(b)
        if g is None or Eq.splits >= 4 or not is_closed(g.args[0]):
            return False
        Eq.splits += 1
        try:
            c, L = g.args[0], Logic()
            for p, i in ((c, 1), (mk_not(c), 2)):
                q = mk_and(assume, p)
                if L.sat(q) and not self.same(unite(a, g, i), unite(b, g, i), q):
                    return False
            return True
        finally:
            Eq.splits -= 1

    def _same(self, a, b, assume):
        if self.hook is not None:
            h = self.hook(a, b, assume)
            if h is not None:
                return h
        if a.tag != b.tag or a.tag in ("ite", "dict"):
            if is_dictish(a) and is_dictish(b):
                return self.same_dict(a, b, assume)
        for x, y in ((a, b), (b, a)):
            if x.tag == "ite":
                c = x.args[0]
                L = Logic()
                if x is a and y.tag == "ite" and c is not y.args[0] and has_fold(c) and has_fold(y.args[0]) and self.same(c, y.args[0], assume):
                    y = t("ite", c, *y.args[1:])  # the same condition, reached by a loop written differently
                p, q = mk_and(assume, c), mk_and(assume, mk_not(c))
                sp, sq = L.sat(p), L.sat(q)
                return (not sp or self.same(x.args[1], y, p)) and (not sq or self.same(x.args[2], y, q))
        if is_boolish(a) and is_boolish(b):
            L = Logic()
            if L.implies(mk_and(assume, a), b) and L.implies(mk_and(assume, b), a):
                return True
            if a.tag != b.tag or a.tag in ("and", "or", "not"):
                return self._boolsim(a, b, assume)
        for x, y in ((a, b), (b, a)):
            if is_const(y) and (cval(y) is None or isinstance(cval(y), str)) and x.tag in ("v", "a", "i", "call", "elem") and assume is not TRUE:
                e = mk_isnone(x) if y is NONE else mk_eq(x, y)
                if Logic().implies(assume, e):
                    return True
        if listy(a) or listy(b):
            r = self._segments(a, b, assume)
            if r is not None:
                return r
        if a.tag == "made" or b.tag == "made":
            (na, fa), (nb, fb) = ((x.args[0], dict((cval(k), v) for k, v in x.args[1])) if x.tag == "made" else (x, {}) for x in (a, b))
            if na.tag != "new" or nb.tag != "new":
                return False
            return self.same(na, nb, assume) and set(fa) == set(fb) and all(self.same(fa[k], fb[k], assume) for k in fa)
        if a.tag != b.tag or len(a.args) != len(b.args):
            return False
        if a.tag == "new":
            p, q = a.args[2], b.args[2]
            if len(p) != len(q) and a.args[0] == b.args[0] and not a.args[3] and not b.args[3]:
                p, q = (terms.padded(a.args[0], x, max(len(p), len(q))) for x in (p, q))
            return a.args[0] == b.args[0] and self.same(p, q, assume) and self._kw(a.args[3], b.args[3], assume)
        if a.tag == "eq":
            return (self.same(a.args[0], b.args[0], assume) and self.same(a.args[1], b.args[1], assume)) or (
                self.same(a.args[0], b.args[1], assume) and self.same(a.args[1], b.args[0], assume))
        if a.tag == "call":
            return self.same(a.args[0], b.args[0], assume) and self.same(a.args[1], b.args[1], assume) and self._kw(a.args[2], b.args[2], assume)
        if a.tag == "op" and a.args[0] in ("|", "&", "^") and a.args[0] == b.args[0]:
            p, q = flat_op(a), flat_op(b)
            if len(p) != len(q):
                return False
            for x in p:
                y = next((y for y in q if self.same(x, y, assume)), None)
                if y is None:
                    return False
                q.remove(y)
            return True
        if a.tag == "op" and a.args[0] in ("+", "*") and a.args[0] == b.args[0]:
            if self.same(a.args[1:], b.args[1:], assume):
                return True
            if numeric(a) and numeric(b):
                return self.same(a.args[1], b.args[2], assume) and self.same(a.args[2], b.args[1], assume)
            return False
        if a.tag == "dict":
            da, db = dict_of(a), dict_of(b)
            if da is not None and db is not None:
                return set(da) == set(db) and all(self.same(da[k], db[k], assume) for k in da)
        return all(self.same(x, y, assume) for x, y in zip(a.args, b.args))

    def _segments(self, a, b, assume):
        """lists as concatenations of items, mapped sequences and flattened sequences"""
        p, q = segments(a), segments(b)
        if p == [("all", a)] and q == [("all", b)]:
            return None
        for x in p + q:
            if x[0] == "all" and x[1].tag == "ite":
                c = x[1].args[0]
                L = Logic()
                return all(not L.sat(mk_and(assume, g)) or self.same(unite(a, x[1], k), unite(b, x[1], k), mk_and(assume, g))
                           for g, k in ((c, 1), (mk_not(c), 2)))
        if len(p) != len(q) or any(x[0] != y[0] for x, y in zip(p, q)):
            return False
        raw = lambda x: x.tag in ("map", "flatmap", "extend", "cat", "list", "op")
        for x, y in zip(p, q):
            if x[0] == "all" and x[1].tag == y[1].tag and raw(x[1]):
                if not (len(x[1].args) == len(y[1].args) and all(self.same(u, v, assume) for u, v in zip(x[1].args, y[1].args))):
                    return False
            elif x[0] in ("many", "flat") and x[2] is y[2]:
                e = mk_and(assume, per_element(assume, x[2]))
                if not self.same(x[3], y[3], e) or not self.same(x[1], y[1], mk_and(e, x[3])):
                    return False
            elif not self.same(x[1:], y[1:], assume):
                return False
        return True

    def same_dict(self, a, b, assume, diff=None):
        L = Logic()
        for k in set(dict_keys(a)) | set(dict_keys(b)):
            ha, hb = dict_has(a, k), dict_has(b, k)
            if not (self.same(mk_and(assume, ha), mk_and(assume, hb)) if ha is not hb else True):
                if diff is not None:
                    diff.append("%s is present when %s, expected when %s" % (cval(k), short(ha), short(hb)))
                return False
            both = mk_and(assume, ha, hb)
            if ha is not FALSE and hb is not FALSE and L.sat(both) and not self.same(dict_get(a, k), dict_get(b, k), both):
                if diff is not None:
                    diff.append("%s is %s, expected %s" % (cval(k), short(simplify(dict_get(a, k), both)), short(simplify(dict_get(b, k), both))))
                return False
        return True

    def _boolsim(self, a, b, assume):
        """boolean structure over atoms that are only similar (not identical): rename b's atoms to a's"""
        aa = [x for x in walk(a) if is_boolish(x) and x.tag not in ("and", "or", "not")]
        m = {}
        for y in walk(b):
            if is_boolish(y) and y.tag not in ("and", "or", "not") and y not in aa:
                for x in aa:
                    if x.tag == y.tag and x is not y and self._same(x, y, TRUE):
                        m[y] = x
                        break
        if not m:
            return False
        b2 = subst(b, lambda z: m.get(z))
        L = Logic()
        return L.implies(mk_and(assume, a), b2) and L.implies(mk_and(assume, b2), a)

    def _kw(self, a, b, assume):
        a, b = dict(a), dict(b)
        return set(a) == set(b) and all(self.same(a[k], b[k], assume) for k in a)


_has_fold = {}


def has_fold(x):
    if x not in _has_fold:
        _has_fold[x] = any(y.tag == "fold" for y in walk(x))
    return _has_fold[x]


_has_enc = {}


def has_enc(x):
    """the term reads a local encoder: its identity says nothing about what was written into it"""
    if isinstance(x, tuple):
        return any(has_enc(y) for y in x)
    if not isinstance(x, T):
        return False
    r = _has_enc.get(x.uid)
    if r is None:
        r = _has_enc[x.uid] = any(is_encoder(y) for y in walk(x))
    return r


def numeric(x):
    return any(is_const(y) and isinstance(cval(y), int) for y in walk(x)) or any(
        y.tag == "call" and y.args[0].tag == "b" and y.args[0].args[0] in ("len", "int") for y in walk(x)) or x.tag == "op" and x.args[0] == "*"


def dict_of(x):
    """dict term with constant keys -> {key: term} (last wins)"""
    if x.tag != "dict":
        return None
    out = {}
    for k, v in x.args[0]:
        if not is_const(k):
            return None
        out[cval(k)] = v
    return out


# ------------------------------------------------------------------ guard cases

def cases(guards, base=TRUE, limit=4096):
    """all consistent truth assignments of the guard formulas: yields the assumption of each"""
    gs = []
    for g in guards:
        if g is TRUE or g is FALSE or g in gs:
            continue
        gs.append(g)
    n = [0]

    def go(i, a):
        n[0] += 1
        if n[0] > limit:
            raise AnalysisBroken("too many guard cases")
        if not Logic().sat(a):
            return
        if i == len(gs):
            yield a
            return
        L = Logic()
        if L.implies(a, gs[i]):
            yield from go(i + 1, a)
            return
        if not L.sat(mk_and(a, gs[i])):
            yield from go(i + 1, a)
            return
        yield from go(i + 1, mk_and(a, gs[i]))
        yield from go(i + 1, mk_and(a, mk_not(gs[i])))
    yield from go(0, base)


# ------------------------------------------------------------------ wire form

class Item:
    __slots__ = ("op", "val", "loops", "pc", "where", "idx", "family", "lids")

    def __init__(self, op, val, loops, pc, where, idx=0, family=None, lids=None):
        self.op, self.val, self.loops, self.pc, self.where, self.idx, self.family = op, val, loops, pc, where, idx, family
        self.lids = tuple(lids) if lids is not None else (None,) * len(loops)

    def __repr__(self):
        return "%s(%s)%s" % (self.op, short(self.val, 60) if isinstance(self.val, T) else self.val, " per item" if self.loops else "")


def wire(res, enc):
    """ordered content written into encoder `enc`"""
    out = []
    for n, e in enumerate(res.events):
        if e.kind == "call" and not e.inlined:
            if e.recv is enc:
                if e.name == "add_all":
                    for a in e.args:
                        v = a.args[0] if a.tag == "star" else a
                        out.append(Item("all" if a.tag == "star" else "add", v, e.loops, _nonempty(e.pc, v) if a.tag == "star" else e.pc, e.where, n, lids=e.lids))
                elif e.name in ("reset",):
                    out.append(Item("reset", NONE, e.loops, e.pc, e.where, n, lids=e.lids))
                else:
                    a = e.args[0] if e.args else (e.kw[0][1] if e.kw else NONE)
                    if e.name == "all" and a.tag == "star":
                        a = a.args[0]
                    out.append(Item(e.name, a, e.loops, e.pc, e.where, n, lids=e.lids))
            elif enc in e.args or any(v is enc for _, v in e.kw):
                if e.name in ("sia_binary_encode", "rivine_binary_encode") and e.recv is not None:
                    out.append(Item("add", e.recv, e.loops, e.pc, e.where, n, e.name.split("_")[0], lids=e.lids))
                elif e.name in ("sia_binary_encode_data", "rivine_binary_encode_data") and e.recv is not None:
                    out.append(Item("data", e.recv, e.loops, e.pc, e.where, n, e.name.split("_")[0], lids=e.lids))
                else:
                    out.append(Item("?" + str(e.name), e.recv or NONE, e.loops, e.pc, e.where, n, lids=e.lids))
        elif e.kind in ("store", "setprop") and e.obj is enc:
            out.append(Item("?store-" + e.attr, e.val, e.loops, e.pc, e.where, n, lids=e.lids))
    for i in out:
        # what is made of each element, one after the other
        if i.op == "all" and i.val.tag == "map":
            v, it, c = i.val.args
            i.pc = i.pc if c is TRUE else mk_and(i.pc, c)
            i.op, i.val, i.loops, i.lids = "add", v, tuple(i.loops) + (it,), i.lids + (("map", id(i)),)
    ns = {}
    for i in out:
        for x in i.lids:
            ns[x] = ns.get(x, 0) + 1
    for i in out:
        # every element of a sequence, one after the other
        if i.op in ("add", "obj") and i.family is None and i.loops and i.val is t("elem", i.loops[-1]) and ns[i.lids[-1]] == 1:
            i.op, i.val, i.loops, i.lids, i.pc = "all", i.loops[-1], i.loops[:-1], i.lids[:-1], _nonempty(i.pc, i.loops[-1])
    return out


def _nonempty(pc, seq):
    """writing an empty sequence writes nothing: its non-emptiness guard is no condition"""
    ln = t("call", t("b", "len"), (seq,), ())
    yes = (seq, mk_lt(const(0), ln), mk_not(mk_eq(ln, const(0))))
    no = (mk_eq(ln, const(0)),)
    return subst(pc, lambda y: TRUE if y in yes else FALSE if y in no else None)


def is_encoder(x):
    return x.tag == "new" and x.args[0].split(".")[-1] in ("SiaBinaryEncoder", "RivineBinaryEncoder")


def enc_data(x):
    """x is the data of a local encoder: the encoder"""
    x = strip(x)
    if x.tag == "a" and x.args[1] in ("data", "_data") and is_encoder(x.args[0]):
        return x.args[0]
    return None


def _cat(y):
    y = strip(y)
    if y.tag == "op" and y.args[0] == "+":
        return _cat(y.args[1]) + _cat(y.args[2])
    return [y]


def _bytecat(x):
    c = _cat(x)
    return len(c) > 1 and any(one_byte(y) is not None or const_bytes(y) is not None or y.tag == "call" and y.args[0].tag == "b" and
                              y.args[0].args[0] in ("bytes", "bytearray") for y in c)


def _gate(y, x, p):
    """resolve the gate of ite term x inside y under p"""
    return simplify(y, p)


def _shared(x, y):
    """in how many loops both items are written"""
    n = 0
    while n < min(len(x.lids), len(y.lids)) and x.lids[n] is not None and x.lids[n] == y.lids[n]:
        n += 1
    return n


class WireCmp:
    def __init__(self, ra, rb, family=None, ctx=None):
        self.ctx = ctx
        self.ra, self.rb = ra, rb
        self.family = family
        self.upto = None
        self.eq = Eq(hook=self._hook)
        self.why = ""

    def _hook(self, a, b, assume):
        da, db = digest_of(a), digest_of(b)
        if da is not None and db is not None:
            return da[0] == db[0] and da[1] == db[1] and da[3] == db[3] and self.eq.same(da[2], db[2], assume)
        for x in (a, b):
            if x.tag == "ite" or x.tag == "op" and x.args[0] == "+" and (x.args[1].tag == "ite" or x.args[2].tag == "ite"):
                return self._split(a, b, x, assume)
        if self.ctx is not None and a.tag == "a" and a.args[0].tag == "cls":
            a2 = class_const(self.ctx, a)
            if a2 is not a:
                return self.eq.same(a2, b, assume)
        if a.tag == "new" and a.args[0].endswith(".TransactionVersion") and len(a.args[2]) == 1 and b.tag != "new":
            return self.eq.same(a.args[2][0], b, assume)
        ea, eb = enc_data(a), enc_data(b)
        if (ea is None) != (eb is None) or (has_enc(a) or has_enc(b)) and ("op" in (strip(a).tag, strip(b).tag)) or _bytecat(a) or _bytecat(b):
            return self.flat(a, b, assume)
        if ea is not None or eb is not None:
            if ea.args[0] != eb.args[0]:
                self.why = "content is encoded with %s, expected %s" % (ea.args[0].split(".")[-1], eb.args[0].split(".")[-1])
                return False
            return self.nested(ea, eb, assume)
        sa, sb = strip(a), strip(b)
        if (sa is not a or sb is not b):
            return self.eq.same(sa, sb, assume)
        ca, cb = const_bytes(a), const_bytes(b)
        if ca is not None and cb is not None:
            return ca == cb
        return None

    def _split(self, a, b, x, assume):
        if x.tag == "op":
            x = next(y for y in x.args[1:] if y.tag == "ite")
        for p in (mk_and(assume, x.args[0]), mk_and(assume, mk_not(x.args[0]))):
            if Logic().sat(p) and not self.eq.same(_gate(a, x, p), _gate(b, x, p), p):
                return False
        return True

    def flat(self, a, b, assume):
        """byte strings put together from several pieces"""
        pa, pb = self.pieces(a, self.ra), self.pieces(b, self.rb)
        return self.lists(pa, pb, assume)

    def pieces(self, x, res):
        y = strip(x)
        if y.tag == "op" and y.args[0] == "+":
            return self.pieces(y.args[1], res) + self.pieces(y.args[2], res)
        e = enc_data(y)
        if e is not None:
            return wire(res, e)
        if res is self.rb:
            o = one_byte(y)
            if o is not None:
                return [Item("u8", o, (), TRUE, "")]
            return [Item("array", y, (), TRUE, "")]
        return [Item("add_array", y, (), TRUE, "")]

    def nested(self, ea, eb, assume):
        keep, keepu = self.family, self.upto
        self.family = "sia" if ea.args[0].split(".")[-1].startswith("Sia") else "rivine"
        try:
            return self.traces(ea, eb, assume, keepu)
        finally:
            self.family, self.upto = keep, keepu

    def traces(self, ea, eb, base=TRUE, upto=None):
        a, b = wire(self.ra, ea), wire(self.rb, eb)
        if upto is not None:      # only what was written before the content is used
            a, b = [i for i in a if i.idx < upto[0]], [i for i in b if i.idx < upto[1]]
        fam = ea.args[0].split(".")[-1] if ea.tag == "new" else ""
        if fam.startswith("Sia") or (not fam and self.family == "sia"):
            a, b = self.spelled(a), self.spelled(b)
        for i in a:
            if i.family is not None and self.family is not None and i.family != self.family:
                self.why = "%r is written with the %s format inside %s content (%s)" % (i, i.family, self.family, i.where)
                return False
        return self.lists(a, b, base)

    def spelled(self, items):
        """a slice built from a sequence: its length, then what is taken from each element (Sia writes both as any number, any object)"""
        out = []
        for i in items:
            y = strip(i.val)
            if i.op in ("add_slice", "slice", "seq", "add", "obj") and y.tag == "map" and y.args[2] is TRUE and y.args[0] is not t("elem", y.args[1]):
                self.nloop = getattr(self, "nloop", 0) - 1
                out.append(Item("add_int" if i.op.startswith("add") else "u64", t("call", t("b", "len"), (y.args[1],), ()), i.loops, i.pc, i.where, i.idx, lids=i.lids))
                out.append(Item("add" if i.op.startswith("add") else "obj", y.args[0], i.loops + (y.args[1],), i.pc, i.where, i.idx, lids=i.lids + (self.nloop,)))
            else:
                out.append(i)
        return out

    def lists(self, a, b, base):
        base = mk_and(base, self.ra.pc, self.rb.pc)
        for asm in cases([i.pc for i in a] + [i.pc for i in b], base):
            L = Logic()
            sa = self.pack([i for i in a if L.implies(asm, i.pc)])
            sb = self.pack([i for i in b if L.implies(asm, i.pc)])
            for k in range(max(len(sa), len(sb))):
                if k >= len(sa):
                    self.why = "missing: %r (step %d)" % (sb[k], k + 1)
                    return False
                if k >= len(sb):
                    self.why = "unexpected: %r (step %d, %s)" % (sa[k], k + 1, sa[k].where)
                    return False
                if k and len(sa[k].loops) == len(sb[k].loops) and len(sa[k - 1].loops) == len(sb[k - 1].loops) and _shared(sa[k - 1], sa[k]) != _shared(sb[k - 1], sb[k]):
                    self.why = "step %d writes %r in %s loop as the step before (%s)" % (k + 1, sa[k], "the same" if _shared(sa[k - 1], sa[k]) else "another", sa[k].where)
                    return False
                if not self.item(sa[k], sb[k], asm):
                    self.why = self.why or "step %d writes %r, expected %r (%s)" % (k + 1, sa[k], sb[k], sa[k].where)
                    return False
        return True

    def pack(self, items):
        """explicit length + array = slice"""
        out = []
        todo = []
        for i in items:
            y = strip(i.val)
            if i.op in ("add_array", "array") and y.tag == "op" and y.args[0] == "+":
                todo += [Item(i.op, z, i.loops, i.pc, i.where, i.idx, lids=i.lids) for z in _cat(y)]
            else:
                todo.append(i)
        for i in todo:
            if out and i.op == "add_array" and out[-1].op in ("add", "add_int", "add_int64") and out[-1].loops == i.loops:
                n = strip(out[-1].val)
                if n.tag == "call" and n.args[0].tag == "b" and n.args[0].args[0] == "len" and strip(n.args[1][0]) is strip(i.val) and out[-1].op == "add_int":
                    out[-1] = Item("add_slice", i.val, i.loops, i.pc, i.where, i.idx, lids=i.lids)
                    continue
            out.append(i)
        return out

    def item(self, a, b, asm):
        la, lb = a.loops, b.loops
        va = a.val
        if la == lb and strip(a.val) is strip(b.val) and (a.op, b.op) in (("all", "array"), ("add_array", "all")):
            return True      # array of a sequence == every element
        if la != lb:
            # array of a sequence == add per element
            if b.op in ("obj",) and a.op == "add_array" and lb == la + (strip(a.val),) and b.val is t("elem", strip(a.val)):
                return True
            if b.op == "array" and a.op == "add" and la == lb + (strip(b.val),) and a.val is t("elem", strip(b.val)):
                return True
            if len(la) != len(lb) or not all(self.eq.same(x, y, asm) for x, y in zip(la, lb)):
                return False
        k = b.op
        ok = va if a.op == b.op else None
        if k == "u8":
            if a.op in ("add_int8", "add_byte"):
                ok = va
            elif a.op == "add_array":
                ok = one_byte(va)
        elif k in ("u16", "u24", "u32"):
            ok = va if a.op == "add_int" + k[1:] else None
        elif k == "u64":
            ok = va if a.op in ("add_int64", "add_int", "add") else None
        elif k == "obj":
            ok = va if a.op == "add" else None
        elif k == "slice":
            ok = va if a.op in ("add_slice", "add") else None
        elif k == "array":
            ok = va if a.op == "add_array" else None
        elif k in ("data", "all"):
            ok = va if a.op == k else None
        elif k == "seq":      # slice of a sequence of objects
            ok = va if a.op in ("add_slice", "add") else None
        if ok is None:
            return False
        self.upto = (a.idx, b.idx)
        try:
            return self.eq.same(strip(ok), strip(b.val), asm)
        finally:
            self.upto = None


def wire_rule(ctx, key, fn, src, cls=None, modules=("tfchain.types",), opaque=(), opaque_names=(), inline=(), enc_param=True, types=None, init=(), own=False):
    """fn writes exactly what the reference `src` writes, in order, under every guard combination.
    enc_param: the encoder is the last parameter; otherwise the function returns bytes built from a local encoder"""
    sp = spec(ctx, src, cls)
    own = () if not own else tuple(f.qual for f in (ctx.repo.lookup(cls, m) for m in ENC_OPAQUE[:2]) if f is not None and f.qual.startswith(cls + "."))
    kw = dict(modules=modules, opaque=opaque, init=init, opaque_names=tuple(opaque_names) + ENC_OPAQUE, inline=tuple(inline) + ENC_GET + own, self_cls=cls)
    if types:
        kw["types"] = types
    ra, rb, ea, eb = pair(ctx, fn, sp, **kw)
    n = fn.node.name
    c = WireCmp(ra, rb, n.split("_")[0] if n.startswith(("sia_", "rivine_")) else None, ctx)
    if enc_param:
        ok = c.traces(ea, eb)
    else:
        ok = (ra.val is None and rb.val is None) or (ra.val is not None and rb.val is not None and c.eq.same(ra.val, rb.val, mk_and(ra.pc, rb.pc)))
        if not ok and not c.why:
            c.why = "result is %s, expected %s" % (short(ra.val), short(rb.val))
    ctx.ob(key, ok, fn.where, "%s: %s" % (key, c.why))
    return ok


# ------------------------------------------------------------------ result equality

def result_rule(ctx, key, fn, src, cls=None, modules=("tfchain.types",), opaque=(), opaque_names=(), inline=(), init=(), assume=None,
                what=("value", "accept"), kind=None, hook=None, props=True, msg="", types=None, args=None, sargs=None, pre=None):
    """fn returns / refuses exactly as the reference does (under `assume`)
    what: value = same returned value on normal exit; accept = same condition of normal exit;
    raises = same condition per exception class; fields:<name>,.. = same final fields of self"""
    sp = spec(ctx, src, cls, kind or fn.kind if cls else None)
    kw = dict(modules=modules, opaque=opaque, opaque_names=opaque_names, inline=inline, init=init, props=props)
    if cls:
        kw["self_cls"] = cls
    if types:
        kw["types"] = types
    if sargs:
        ra = ctx.run(fn, args=args, **kw)
        rb = ctx.run(sp, args=sargs, **kw)
    else:
        ra, rb, _, _ = pair(ctx, fn, sp, args=args, **kw)
        defaults(ctx, key, fn, sp, msg)
    return compare(ctx, key, fn, ra, rb, assume, what, hook, msg, pre=pre)


def defaults(ctx, key, fn, sp, msg):
    """an argument that is left out means what the reference says"""
    def of(f):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if f.kind in ("method", "getter", "setter", "deleter", "classmethod"):
            ps = ps[1:]
        return ps, dict(zip(reversed(ps), reversed(a.defaults)))
    (pa, da), (pb, db) = of(fn), of(sp)
    it = ctx.interp()
    for x, y in zip(pa, pb):
        w = it._const_expr(sp.module, db[y], None) if y in db else None
        if w is None:
            continue
        v = it._const_expr(fn.module, da[x], fn.cls) if x in da else None
        ctx.ob("%s.default.%s" % (key, x), v is not None and v is w, fn.where,
               lambda: "%s: %s is %s when it is left out, expected %s" % (msg, x, short(v) if v is not None else "required", short(w)))


def _truthy_instances(ctx, *results):
    """instances of repository classes without __len__/__bool__ are true"""
    out, seen, cmp = [], set(), set()
    roots = [x for r in results for x in [r.pc] + ([r.val] if isinstance(r.val, T) else [])]
    for root in roots:
        for y in walk(root):
            if y.tag == "eq":  # an instance can define equality with a plain value, which then says nothing about its truth
                cmp.update(p for p, q in (y.args, y.args[::-1]) if q.tag == "c")
    for r in results:
        for root in [r.pc] + ([r.val] if isinstance(r.val, T) else []):
            for y in walk(root):
                if y.tag == "isinst" and y.args[0] in cmp:
                    continue
                if y.tag == "isinst" and y not in seen:
                    seen.add(y)
                    cs = y.args[1] if isinstance(y.args[1], tuple) else (y.args[1],)
                    if cs and all(isinstance(c, str) and c in ctx.repo.classes and not any(
                            ctx.repo.lookup(q, "__len__") or ctx.repo.lookup(q, "__bool__") for q in ctx.repo.subclasses(c)) for c in cs):
                        out.append(mk_or(mk_not(y), y.args[0]))
    return mk_and(*out)


def compare(ctx, key, fn, ra, rb, assume=None, what=("value", "accept"), hook=None, msg="", selfv=None, pre=None):
    """what additionally: stores:a,b / calls:f,g = the same stores to these attributes / calls of these functions, with the
    same operands under the same guards"""
    if pre is not None:
        for q in (ra, rb):
            q.val = pre(q.val) if isinstance(q.val, T) else q.val
            q.pc = pre(q.pc)
            q.events = [_premap(e, pre) for e in q.events]
    A = mk_and(assume if assume is not None else TRUE, _truthy_instances(ctx, ra, rb))
    eq = Eq(hook)
    L = Logic()
    both = mk_and(A, ra.pc, rb.pc)
    allok = True
    if "accept" in what:
        pa, pb = mk_and(A, ra.pc), mk_and(A, rb.pc)
        ok = (L.implies(pa, pb) and L.implies(pb, pa)) or eq.same(pa, pb, A)
        allok &= ctx.ob(key + ".accept", ok, fn.where, lambda: "%s: accepts when %s, expected when %s%s" % (msg, short(ra.pc), short(rb.pc), witness(pa, pb)))
    if "value" in what:
        va, vb = (q.deep(q.deflam(q.val)) if q.val is not None else NONE for q in (ra, rb))
        ok = eq.same(va, vb, both)
        allok &= ctx.ob(key + ".value", ok, fn.where, lambda: "%s: result is %s, expected %s" % (msg, short(simplify(va, both)), short(simplify(vb, both))))
    for w in what:
        if w.startswith("fields:"):
            s = selfv or var("self")
            for n in w[7:].split(","):
                fa, fb = (q.deep(q.deflam(q.field(s, n))) for q in (ra, rb))
                if pre is not None:
                    fa, fb = pre(fa), pre(fb)
                allok &= ctx.ob("%s.field.%s" % (key, n), eq.same(fa, fb, both), fn.where,
                                lambda: "%s: %s becomes %s, expected %s" % (msg, n, short(simplify(fa, both)), short(simplify(fb, both))))
        if w.startswith(("stores:", "calls:")):
            k, ns = w.split(":")
            for n in ns.split(","):
                why = []
                ok = effects(ra, rb, k, n, A, eq, why)
                allok &= ctx.ob("%s.%s.%s" % (key, k, n), ok, fn.where, lambda: "%s: %s" % (msg, "; ".join(why)))
        if w.startswith("before:"):
            before(ctx, key, fn, ra, A, w[7:], msg)
        if w.startswith("raises:"):
            for n in w[7:].split(","):
                pa = mk_and(A, mk_or(*[_lifted(e) for e in ra.raises() if _excname(e.name) == n and not e.caught]))
                pb = mk_and(A, mk_or(*[_lifted(e) for e in rb.raises() if _excname(e.name) == n and not e.caught]))
                ok = (L.implies(pa, pb) and L.implies(pb, pa)) or eq.same(pa, pb, A)
                allok &= ctx.ob("%s.raises.%s" % (key, n), ok, fn.where,
                                lambda: "%s: raises %s when %s, expected when %s%s" % (msg, n, short(pa), short(pb), witness(pa, pb)))
                _errdata(ctx, key, fn, ra, rb, n, A, eq, msg)
    return allok


def witness(p, q):
    """a case that tells two conditions apart, in words"""
    for a, b, w in ((p, q, "holds"), (q, p, "is missing")):
        m = Logic().counter(a, b)
        if m is not None:
            m = sorted(m, key=lambda s: (s.startswith("not "), len(s)))
            return "; differs (%s) when %s" % (w, " & ".join(x if len(x) < 200 else (x if __import__("os").environ.get("SHORT") else "..." + x[-197:]) for x in m))
    return ""


def _lifted(e):
    """the condition of an event as seen from outside the loops around it"""
    p = e.pc
    for it in reversed(e.loops or ()):
        if isinstance(it, T) and it.tag != "while" and mentions(p, lambda y: y.tag in ("elem", "idx") and y.args[0] is it):
            p = mk_exists(it, p)
    return p


def _bind_error(ctx, r, e):
    """the data an error object carries: constructor arguments by parameter, without the message; None if the construction fails"""
    x = e.val
    if not isinstance(x, T) or x.tag != "new" or x.args[0] not in ctx.repo.classes:
        return ()
    f = ctx.repo.lookup(x.args[0], "__init__")
    if f is None:
        return ()
    a = f.node.args
    ps = [p.arg for p in a.posonlyargs + a.args][1:]
    if a.vararg or a.kwarg:
        return ()
    got = dict(zip(ps, x.args[2]))
    if len(x.args[2]) > len(ps):
        return None
    for k, v in x.args[3]:
        if k not in ps or k in got:
            return None
        got[k] = v
    for p, d in zip(reversed(ps), reversed(a.defaults)):
        got.setdefault(p, const(d.value) if isinstance(d, ast.Constant) else t("default", f.qual, p))
    if any(p not in got for p in ps):
        return None
    return tuple(r.deep(got[p], e.heap) for p in ps if p not in ("message", "msg"))


def _errdata(ctx, key, fn, ra, rb, n, A, eq, msg):
    """a documented error carries the documented data"""
    ea, eb = ([(e, _bind_error(ctx, r, e)) for e in r.raises() if _excname(e.name) == n and not e.caught] for r in (ra, rb))
    if not any(d for _, d in ea + eb) and all(d is not None for _, d in ea):
        return
    L = Logic()
    bad = []

    def leaves(x):
        return leaves(x.args[1]) + leaves(x.args[2]) if x.tag == "ite" else [x]

    def like(x, y, pc):
        """the same; where the value depends on how far things got before something failed: one of the values it had on the way"""
        if eq.same(x, y, pc):
            return True
        if not any(mentions(z, lambda w: w.tag == "excat") for z in (x, y, pc)):
            return False
        return all(z is NONE or any(mentions(w, lambda u: u is z) for w in leaves(y)) for z in leaves(x))
    for e, d in ea:
        pc = mk_and(A, e.pc)
        if not L.sat(pc):
            continue
        if d is None:
            bad.append("%s at %s cannot be constructed with these arguments" % (n, e.where))
            continue
        cover = [f.pc for f, g in eb if g is not None and len(g) == len(d) and all(like(x, y, mk_and(pc, f.pc)) for x, y in zip(d, g))]
        if not L.implies(pc, mk_or(*cover)) and not eq.same(pc, mk_and(pc, mk_or(*cover)), A):
            bad.append("%s at %s carries (%s) when %s, expected %s" % (n, e.where, ", ".join(short(x, 100) for x in d), short(pc, 150), " or ".join(
                "(%s)" % ", ".join(short(x, 100) for x in g) for _, g in eb if g is not None)))
    ctx.ob("%s.data.%s" % (key, n), not bad, fn.where, lambda: "%s: %s" % (msg, "; ".join(bad)))


def _premap(e, pre):
    import copy
    e = copy.copy(e)
    for a in ("pc", "val", "obj", "recv", "res"):
        x = getattr(e, a, None)
        if isinstance(x, T):
            setattr(e, a, pre(x))
    if getattr(e, "args", None):
        e.args = tuple(pre(x) for x in e.args)
    if getattr(e, "kw", None):
        e.kw = tuple((k, pre(x)) for k, x in e.kw)
    return e


def ren(e, x):
    """loop-carried values inside an event named by start and step instead of by variable"""
    for m in e.ren or ():
        if isinstance(x, T):
            x = subst(x, m.get)
    return x


def effect_events(r, kind, name):
    if kind == "stores":
        return [e for e in r.events if e.kind in ("store", "setprop") and e.attr == name and not getattr(e, "via", False)]
    return [e for e in r.events if e.kind == "call" and e.name == name]


def effect_list(r, kind, name):
    """operands, guard, place and loops (what each enclosing loop runs over) of every such event"""
    if kind == "stores":
        return [((ren(e, e.obj), ren(e, r.deep(ren(e, e.val), e.heap))), ren(e, e.pc), e.where, e.loops, e.after or ()) for e in effect_events(r, kind, name)]
    def d(x, e):
        return ren(e, r.deep(r.deflam(ren(e, x)), e.heap))
    return [((d(e.recv, e) if e.recv is not None else NONE,) + tuple(d(x, e) for x in e.args) + tuple(x for k, y in sorted(e.kw) for x in (const(k), d(y, e))), ren(e, e.pc), e.where, e.loops, e.after or ())
            for e in effect_events(r, kind, name)]


def _reached(pc, after):
    """the condition of an operation without what its place in the body of a try says already: nothing before it raised"""
    if not after:
        return pc
    for x in walk(pc):
        if x.tag == "exc" and any(x.args[1] == n and x.args[0] and set(x.args[0].split()) <= ops for n, ops in after) and Logic().implies(pc, mk_not(x)):
            pc = subst(pc, {x: FALSE}.get)
    return pc


def _loopsame(eq, x, y, A):
    return len(x) == len(y) and all(eq.same(p, q, A) for p, q in zip(x, y))


def effects(ra, rb, kind, name, A, eq, why):
    """the same events with the same operands, under the same guards, in the same loops, as often"""
    la, lb = effect_list(ra, kind, name), effect_list(rb, kind, name)
    L = Logic()
    for xs, ys, what in ((la, lb, "%s %s(%s) not expected when %s"), (lb, la, "%s %s(%s) missing when %s")):
        for v, pc, where, lo, af in xs:
            pc = mk_and(A, pc)
            if kind == "stores" and v[0].tag == "call" and str(v[0].args[0].args[0]).endswith(("_new", ".new")):
                pc = mk_and(pc, ra.pc, rb.pc)         # an object made here: what becomes of it when it is given up says nothing
            if not L.sat(pc):
                continue
            cover = [_reached(q, af) for w, q, _, lw, _ in ys if len(w) == len(v) and eq.same(v, w, mk_and(pc, q)) and _loopsame(eq, lo, lw, mk_and(pc, q))]
            if not L.implies(pc, mk_or(*cover)) and not eq.same(pc, mk_and(pc, mk_or(*cover)), A):
                why.append(what % (kind[:-1], name, ", ".join(short(x, 120) for x in v), short(pc)))
                return False
    if kind == "calls":
        ta, tb = (_twice(l, A, eq, L) for l in (la, lb))
        for xs, ys, what in ((ta, tb, "more than once"), (tb, ta, "only once")):
            for v, pc in xs:
                cover = [q for w, q in ys if len(w) == len(v) and eq.same(v, w, mk_and(pc, q))]
                if not L.implies(pc, mk_or(*cover)) and not eq.same(pc, mk_and(pc, mk_or(*cover)), A):
                    why.append("call %s(%s) happens %s when %s" % (name, ", ".join(short(x, 120) for x in v), what, short(pc)))
                    return False
    return True


def _twice(l, A, eq, L):
    out = []
    for i, (v, pc, _, lo, _) in enumerate(l):
        for w, q, _, lw, _ in l[i + 1:]:
            b = mk_and(A, pc, q)
            if len(v) == len(w) and L.sat(b) and _loopsame(eq, lo, lw, b) and eq.same(v, w, b):
                out.append((v, b))
    return out


def before(ctx, key, fn, r, A, order, msg):
    """order 'a<b': no a (a store when written .a) happens after a b on the same run"""
    L = Logic()
    x, y = ((effect_events(r, "stores", n[1:]) if n.startswith(".") else effect_events(r, "calls", n)) for n in order.split("<"))
    bad = [(p, q) for p in x for q in y if p.seq > q.seq and L.sat(mk_and(A, p.pc, q.pc))]
    ctx.ob("%s.order.%s" % (key, order), not bad, fn.where, lambda: "%s: %s at %s happens after %s at %s" % (
        msg, order.split("<")[0], bad[0][0].where, order.split("<")[1], bad[0][1].where))


def _excname(n):
    return str(n).split(".")[-1].split(":")[-1]
