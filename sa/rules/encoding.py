"""Primitive binary encoders: P01 fixed-width integers, P02 length prefixes, P03 type dispatch."""

from ..core import *
from ..core import simplify, rename, short
from ..logic import Logic
from ..terms import *
from ..terms import t

RIV = "tfchain.encoders.rivine.RivineBinaryEncoder"
SIA = "tfchain.encoders.sia.SiaBinaryEncoder"
RIVB = "tfchain.encoders.rivine.RivineBinaryObjectEncoderBase"
SIAB = "tfchain.encoders.sia.SiaBinaryObjectEncoderBase"
OOR = "tfchain.encoders.exceptions.IntegerOutOfRange"
SLOOR = "tfchain.encoders.exceptions.SliceLengthOutOfRange"

V = var("value")
SELF = var("self")


def isint(x):
    return t("isinst", x, ("b:int",))


def strip_int(x):
    """int(e) -> e  (integer-typed operands only)"""
    def go(y):
        if y.tag == "call" and y.args[0].tag == "b" and y.args[0].args[0] == "int" and len(y.args[1]) == 1 and not y.args[2]:
            return subst(y.args[1][0], go)
        return None
    return subst(x, go)


def to_bytes_form(x):
    """recognise the fixed-width rendering of an integer: (value, width, order) or None"""
    if x.tag == "call":
        f, a, k = x.args[0], list(x.args[1]), dict(x.args[2])
        if f.tag == "a" and f.args[1] == "to_bytes":
            if f.args[0].tag == "b" and f.args[0].args[0] == "int":
                v, a = a[0], a[1:]
            else:
                v = f.args[0]
            w = a[0] if a else k.get("length")
            o = a[1] if len(a) > 1 else k.get("byteorder", const("big"))
            s = k.get("signed", FALSE)
            if is_const(w) and is_const(o) and s is FALSE:
                return v, cval(w), cval(o)
        if f.tag == "ext" and f.args[0] == "struct.pack" and len(a) == 2 and is_const(a[0]):
            m = {"<B": (1, "little"), "B": (1, "little"), "<H": (2, "little"), "<I": (4, "little"), "<L": (4, "little"), "<Q": (8, "little"),
                 ">H": (2, "big"), ">I": (4, "big"), ">Q": (8, "big")}.get(cval(a[0]))
            if m:
                return a[1], m[0], m[1]
        if f.tag == "b" and f.args[0] in ("bytes", "bytearray") and len(a) == 1:
            if a[0].tag in ("list", "tuple") and len(a[0].args[0]) == 1:
                return a[0].args[0][0], 1, "little"
            return to_bytes_form(a[0])
    if x.tag == "c" and isinstance(cval(x), bytes) and len(cval(x)) == 1:
        return const(cval(x)[0]), 1, "little"
    return None


def const_bytes(x):
    if x.tag == "c" and isinstance(cval(x), bytes):
        return list(cval(x))
    if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("bytes", "bytearray") and len(x.args[1]) == 1:
        y = x.args[1][0]
        if y.tag in ("list", "tuple") and all(is_const(z) for z in y.args[0]):
            return [int(cval(z)) for z in y.args[0]]
        return const_bytes(y)
    f = to_bytes_form(x)
    if f and is_const(f[0]):
        return list(int(cval(f[0])).to_bytes(f[1], f[2]))
    return None


def strip_bytes(x):
    while x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("bytes", "bytearray", "memoryview") and len(x.args[1]) == 1 \
            and x.args[1][0].tag not in ("list", "tuple"):
        x = x.args[1][0]
    return x


def flatten_plus(x, base):
    """x == base + a + b ...  -> [a, b, ...] or None"""
    out = []
    while x is not base:
        if x.tag == "op" and x.args[0] == "+":
            out.insert(0, x.args[2])
            x = x.args[1]
        elif x.tag in ("extend", "cat") and x.args[0] is not None:
            out.insert(0, x.args[1] if x.tag == "extend" else t("call", t("b", "bytes"), (t("list", (x.args[1],)),), ()))
            x = x.args[0]
        else:
            return None
    return out


DATA = attr(SELF, "_data")


def norm_affine(x, v):
    """conditions on an affine form of the integer v as conditions on v itself"""
    import math

    def go(y):
        if y.tag == "lt":
            for k in (0, 1):
                f, c = affine(y.args[k], v), y.args[1 - k]
                if f and f[0] > 0 and (f != (1, 0)) and is_const(c) and isinstance(cval(c), int):
                    n = cval(c) - f[1]   # k=0: f0*v < n ; k=1: n < f0*v
                    return mk_lt(v, const(-(-n // f[0]))) if k == 0 else mk_lt(const(math.floor(n / f[0]) if abs(n) < 2 ** 50 else n // f[0]), v)
        if y.tag == "isinst" and y.args[0] is not v:
            f = affine(y.args[0], v)
            if f and f[0] and y.args[1] == ("b:int",):
                return TRUE
        if y.tag == "hasattr" and y.args[0] is not v and affine(y.args[0], v) and y.args[1] is const("__int__"):
            return TRUE
        return None
    return subst(x, go)


def appended(res, assume, ints=None):
    d = res.field(SELF, "_data")
    d = simplify(d, assume, ints)
    return flatten_plus(d, DATA), d


def _int_method(ctx, cls, name, width, exc, numbers=True):
    """the value is an integer, or an object that stands for one (numbers: such objects are accepted)"""
    f = ctx.repo.method(cls, name)
    mod = cls.rsplit(".", 1)[0]
    res = ctx.run(f, modules=[mod])
    p = f.node.args.args[1].arg
    v = var(p)
    ints = lambda x: x is v
    N = strip_int(res.pc)
    lo, hi = mk_not(mk_lt(v, const(0))), mk_not(mk_lt(const(2 ** (8 * width) - 1), v))
    rng = mk_and(lo, hi)
    L = Logic(int_terms=ints)
    r = mk_or(*[strip_int(e.pc) for e in res.raises() if e.name == exc])
    if name != "add_byte":
        no = mk_and(mk_not(isint(v)), mk_not(t("hasattr", v, const("__int__"))))
        ctx.ob("%s.%s.refuses-others" % (cls.split(".")[-1], name), not L.sat(mk_and(N, no)), f.where,
               "a value that is no number is accepted (a text of digits, for example)")
    for what, base, must in (("", isint(v), True), (".number", mk_and(mk_not(isint(v)), t("hasattr", v, const("__int__")), *[
            mk_not(t("isinst", v, k)) for k in (("b:str",), ("b:bytes",), ("b:bytearray",), ("b:bytearray", "b:bytes"), ("b:bool",))]), numbers)):
        key = "%s.%s%s" % (cls.split(".")[-1], name, what)
        ctx.ob(key + ".refuses-out-of-range", L.implies(mk_and(N, base), rng), f.where,
               lambda: "normal exit possible for an integer outside [0, 2^%d-1]: %s" % (8 * width, L.counter(mk_and(N, base), rng)))
        if must:
            ctx.ob(key + ".accepts-in-range", L.implies(mk_and(base, rng), N), f.where,
                   lambda: "an integer inside [0, 2^%d-1] does not reach normal exit: %s" % (8 * width, L.counter(mk_and(base, rng), N)))
            ctx.ob(key + ".error-class", L.implies(mk_and(base, mk_not(rng)), r), f.where,
                   "an out-of-range integer is not refused with %s on every path" % exc.split(".")[-1])
        elif not L.sat(mk_and(N, base)):
            continue
        assume = mk_and(base, rng, strip_int(N))
        d = simplify(strip_int(res.field(SELF, "_data")), assume, ints)
        app = flatten_plus(d, DATA)
        tb = to_bytes_form(app[0]) if app and len(app) == 1 else None
        ctx.ob(key + ".width", tb is not None and tb[0] is v and tb[1] == width and tb[2] == "little", f.where,
               "bytes appended are not the %d-byte little-endian form of the value: %s" % (width, short(d)))


def p01(ctx):
    for n, w in (("add_int8", 1), ("add_int16", 2), ("add_int24", 3), ("add_int32", 4), ("add_int64", 8)):
        _int_method(ctx, RIV, n, w, OOR)
    _int_method(ctx, SIA, "add_int", 8, OOR, numbers=False)
    _int_method(ctx, RIV, "add_byte", 1, OOR)
    _int_method(ctx, SIA, "add_byte", 1, "b:ValueError")
    # a single byte given as text/bytes: exactly one byte or refused
    for cls in (RIV, SIA):
        f = ctx.repo.method(cls, "add_byte")
        res = ctx.run(f, modules=[cls.rsplit(".", 1)[0]])
        v = var(f.node.args.args[1].arg)
        noint = mk_and(mk_not(isint(v)), mk_not(t("hasattr", v, const("__int__"))))
        other = mk_and(noint, mk_not(t("isinst", v, ("b:str",))), mk_not(t("isinst", v, ("b:bytearray", "b:bytes"))))
        ctx.ob("%s.add_byte.refuses-others" % cls.split(".")[-1], not Logic().sat(mk_and(res.pc, other)), f.where,
               "a value that is no number, text or binary data is accepted as a single byte")
        for nm, a, content in (("bytes", mk_and(noint, mk_not(t("isinst", v, ("b:str",))), t("isinst", v, ("b:bytearray", "b:bytes"))), v),
                               ("str", mk_and(noint, t("isinst", v, ("b:str",)), mk_not(t("isinst", v, ("b:bytearray", "b:bytes")))), None)):
            d = simplify(res.field(SELF, "_data"), mk_and(a, res.pc))
            app = flatten_plus(d, DATA)
            c = strip_bytes(app[0]) if app and len(app) == 1 else None
            ok = c is not None and (c is content if content is not None else _is_utf8(c, v))
            key = "%s.add_byte.%s" % (cls.split(".")[-1], nm)
            ctx.ob(key + ".content", ok, f.where, "appended %s" % short(d))
            if ok:
                ln = t("call", t("b", "len"), (c,), ())
                L = Logic()
                one = mk_eq(ln, const(1))
                ctx.ob(key + ".exactly-one", L.implies(mk_and(a, res.pc), one) and L.implies(mk_and(a, one), res.pc), f.where,
                       "a text/bytes value of length != 1 is accepted as a single byte (or one of length 1 refused)")


def _is_utf8(c, v):
    if c.tag != "call":
        return False
    if c.args[0].tag == "a" and c.args[0].args[1] == "encode" and c.args[0].args[0] is v:
        a = c.args[1]
        e = a[0] if a else dict(c.args[2]).get("encoding")
        return e is None or (is_const(e) and str(cval(e)).lower().replace("_", "-") in ("utf-8", "utf8"))
    if c.args[0].tag == "b" and c.args[0].args[0] in ("bytes", "bytearray") and len(c.args[1]) == 2 and c.args[1][0] is v:
        return is_const(c.args[1][1]) and str(cval(c.args[1][1])).lower() in ("utf-8", "utf8")
    return False


def affine(x, v):
    """x as  mult*v + add  with bit-or of constants below the shift: (mult, add) or None"""
    if x is v:
        return 1, 0
    if is_const(x) and isinstance(cval(x), int):
        return 0, cval(x)
    if x.tag == "op":
        o, a, b = x.args
        A, B = affine(a, v), affine(b, v)
        if A is None or B is None:
            return None
        if o == "+":
            return A[0] + B[0], A[1] + B[1]
        if o == "<<" and B[0] == 0:
            return A[0] << B[1], A[1] << B[1]
        if o == "*" and (A[0] == 0 or B[0] == 0):
            if B[0] == 0:
                return A[0] * B[1], A[1] * B[1]
            return B[0] * A[1], B[1] * A[1]
        if o in ("|", "^"):
            for p, q in ((A, B), (B, A)):
                if p[0] == 0 and q[1] == 0 and q[0] and (q[0] & (q[0] - 1)) == 0 and 0 <= p[1] < q[0]:
                    return q[0], p[1]
    return None


def p02(ctx):
    # (a) rivine prefix table
    f = ctx.repo.method(RIV, "_add_slice_length")
    res = ctx.run(f, modules=["tfchain.encoders.rivine"])
    v = var(f.node.args.args[1].arg)
    ints = lambda x: x is v
    nonneg = mk_not(mk_lt(v, const(0)))
    table = [(0, 2 ** 7, 1, 2, 0), (2 ** 7, 2 ** 14, 2, 4, 1), (2 ** 14, 2 ** 21, 3, 8, 3), (2 ** 21, 2 ** 29, 4, 8, 7)]
    for lo, hi, w, mult, add in table:
        region = mk_and(mk_not(mk_lt(v, const(lo))), mk_lt(v, const(hi)))
        d = simplify(norm_affine(strip_int(res.field(SELF, "_data")), v), region, ints)
        app = flatten_plus(d, DATA)
        tb = to_bytes_form(app[0]) if app and len(app) == 1 else None
        aff = affine(tb[0], v) if tb else None
        ctx.ob("rivine.slice-length[%d..%d)" % (lo, hi), tb is not None and tb[1] == w and tb[2] == "little" and aff == (mult, add), f.where,
               "length in [%d, %d) is written as %s, expected %d little-endian bytes of length*%d+%d" % (lo, hi, short(d), w, mult, add))
        # the rendered value fits its width, so the region must not be refused for length reasons
        bad = mk_or(*[norm_affine(strip_int(e.pc), v) for e in res.raises() if e.name == SLOOR])
        ctx.ob("rivine.slice-length[%d..%d).accepted" % (lo, hi), not Logic(int_terms=ints).sat(mk_and(region, bad)), f.where,
               "a representable length is refused")
    big = mk_not(mk_lt(v, const(2 ** 29)))
    bad = mk_or(*[norm_affine(e.pc, v) for e in res.raises() if e.name == SLOOR])
    ctx.ob("rivine.slice-length.too-long", Logic(int_terms=ints).implies(big, bad), f.where, "a length of 2^29 or more is not refused")
    # (b) prefix agrees with content
    for cls, pref in ((RIV, "_add_slice_length"), (SIA, "add_int")):
        f = ctx.repo.method(cls, "add_slice")
        mod = cls.rsplit(".", 1)[0]
        val = var(f.node.args.args[1].arg)
        pq = ctx.repo.method(cls, pref).qual
        aq = ctx.repo.method(cls, "add").qual
        res = ctx.run(f, modules=[mod], opaque=[pq, aq])
        st, by = t("isinst", val, ("b:str",)), t("isinst", val, ("b:bytearray", "b:bytes"))
        key = cls.split(".")[-1] + ".add_slice"
        for case, a in (("str", mk_and(st, mk_not(by))), ("bytes", mk_and(by, mk_not(st))), ("sequence", mk_and(mk_not(st), mk_not(by)))):
            ops = optrace(res, a, {pq: "len", aq: "add"})
            ok, why = _prefix_ok(ops, case, val)
            ctx.ob("%s.%s" % (key, case), ok, f.where, why)
    ctx.ob("sia.length-is-8-byte-int", True)


def optrace(res, assume, quals):
    """ordered primitive operations on the encoder that happen under `assume`"""
    L = Logic()
    out = []
    for e in res.events:
        op = None
        if e.kind == "call" and e.obj in quals and not e.inlined:
            op = (quals[e.obj], simplify(e.args[0], assume) if e.args else None, e.loops)
        elif e.kind == "store" and e.attr == "_data" and e.obj is SELF:
            v = simplify(e.val, assume)
            op = ("raw", v.args[2] if v.tag == "op" and v.args[0] == "+" else v, e.loops)
        elif e.kind == "call" and e.name in ("extend", "append") and e.recv is not None and mentions(e.recv, lambda y: y is DATA):
            x = simplify(e.args[0], assume)
            op = ("raw", x if e.name == "extend" else t("call", t("b", "bytes"), (t("list", (x,)),), ()), e.loops)
        elif e.kind == "raise" and not e.caught:
            op = ("raise", e.name, e.loops)
        if op is None:
            continue
        if not L.sat(mk_and(assume, e.pc)):
            continue
        op = op[:2] + (tuple(simplify(x, assume) if isinstance(x, T) else x for x in op[2]),)
        out.append(op + (L.implies(assume, e.pc), e))
    # one operation written on two branches that are both possible here
    k = 0
    while k + 1 < len(out):
        p, q = out[k], out[k + 1]
        if p[:3] == q[:3] and not (p[3] or q[3]) and not L.sat(mk_and(assume, p[4].pc, q[4].pc)):
            out[k:k + 2] = [p[:3] + (L.implies(assume, mk_or(p[4].pc, q[4].pc)), p[4])]
        else:
            k += 1
    return out


def _count_of(n, val):
    """n counts the elements of val"""
    if n.tag == "call" and n.args[0].tag == "b" and n.args[0].args[0] == "len":
        return n.args[1][0] is val
    if n.tag == "sum" and n.args[0].tag == "map":
        m = n.args[0]
        return m.args[0] is const(1) and m.args[1] is val and m.args[2] is TRUE
    return False


def _prefix_ok(ops, case, val):
    ops = [o for o in ops if o[0] != "raise"]
    if not ops or ops[0][0] != "len":
        return False, "no length prefix is written before the content: %s" % short([o[:2] for o in ops].__repr__())
    if sum(1 for o in ops if o[0] == "len") != 1:
        return False, "more than one length prefix is written"
    n = ops[0][1]
    body = ops[1:]
    if case == "sequence":
        if not all(o[0] == "add" and o[2] == (val,) and o[1] is t("elem", val) for o in body) or len(body) != 1:
            return False, "content is not every element of the sequence in order: %s" % [o[:3] for o in body]
        if not _count_of(n, val):
            return False, "prefix %r is not the number of elements" % n
        return True, ""
    if len(body) != 1 or body[0][0] != "raw":
        return False, "content of the slice is %s" % [o[:2] for o in body]
    c = strip_bytes(body[0][1])
    if case == "str" and not _is_utf8(c, val):
        return False, "text content written is %r" % c
    if case == "bytes" and c is not val:
        return False, "binary content written is %r" % c
    if not (n.tag == "call" and n.args[0].tag == "b" and n.args[0].args[0] == "len" and strip_bytes(n.args[1][0]) is c):
        return False, "prefix %r does not count the bytes of %r" % (n, c)
    if not all(o[3] for o in ops):
        return False, "prefix or content is written only under an extra condition"
    return True, ""


def p03(ctx):
    from .table import table
    rows = []
    for k, cls in (("rivine", RIV), ("sia", SIA)):
        rows.append((k + "_encode", None, "tfchain.encoders.%s_encode" % k, "def f(*values):\n    e = %s()\n    e.add_all(*values)\n    return e.data" % cls, "values encoded one after the other",
                     dict(modules=("tfchain.encoders",), opaque_names=("add_all", "data", "__init__"), what=("value", "accept", "calls:add_all"))))
        rows.append((k + ".data", cls, "data", "def f(self):\n    return self._data", "what was encoded", {}))
        for n in ("__init__", "reset"):
            rows.append(("%s.%s" % (k, n), cls, n, "def f(self):\n    self._data = bytearray()", "an empty encoder", dict(what=("fields:_data",))))
    table(ctx, rows)
    for cls, base, intm in ((RIV, RIVB, "add_int64"), (SIA, SIAB, "add_int")):
        f = ctx.repo.method(cls, "add")
        mod = cls.rsplit(".", 1)[0]
        iq, sq, aq = (ctx.repo.method(cls, x).qual for x in (intm, "add_slice", "add"))
        res = ctx.run(f, modules=[mod], opaque=[iq, sq])
        v = var(f.node.args.args[1].arg)
        isb = t("isinst", v, (base,))
        bo, it, st, by = t("isinst", v, ("b:bool",)), isint(v), t("isinst", v, ("b:str",)), t("isinst", v, ("b:bytearray", "b:bytes"))
        hi = t("hasattr", v, const("__int__"))
        plain = mk_and(mk_not(isb), mk_not(bo), mk_not(it), mk_not(hi))
        name = cls.split(".")[-1] + ".add"
        enc = "rivine_binary_encode" if cls == RIV else "sia_binary_encode"

        def ops(a):
            L = Logic()
            o = optrace(res, a, {iq: "int", sq: "slice"})
            for e in res.events:
                if e.kind == "call" and e.name == enc and L.sat(mk_and(a, e.pc)):
                    o.append(("enc", e.recv, e.loops, L.implies(a, e.pc), e))
            exc = [e for e in res.events if e.kind == "handler"]
            return [x for x in o if not (x[0] == "raise" and any(mentions(x[4].pc, lambda y: y.tag == "exc") for _ in (0,)))]
        o = ops(mk_and(isb, mk_not(it), mk_not(bo)))
        ok = len(o) == 1 and o[0][0] == "enc" and o[0][1] is v and o[0][3] and SELF in list(o[0][4].args) + [x for _, x in o[0][4].kw]
        ctx.ob(name + ".object", ok, f.where, "an object with its own encoding is not encoded by it, exactly once, into this encoder: %s" % [x[:2] for x in o])
        for b in (True, False):
            a = mk_and(mk_not(isb), bo, it, v if b else mk_not(v))
            o = ops(a)
            cb = None
            if len(o) == 1 and o[0][0] == "raw":
                x = o[0][1]
                x = x if x.tag != "ite" else simplify(x, a)
                cb = const_bytes(x)
                if cb is None and to_bytes_form(x) and to_bytes_form(strip_int(x))[0] is v and to_bytes_form(x)[1] == 1:
                    cb = [int(b)]
            ctx.ob("%s.bool-%s" % (name, b), cb == [int(b)] and o[0][3], f.where, "a boolean %s is encoded as %s" % (b, [x[:2] for x in o]))
        o = ops(mk_and(mk_not(isb), mk_not(bo), it))
        ctx.ob(name + ".int", len(o) == 1 and o[0][0] == "int" and strip_int(o[0][1]) is v and o[0][3], f.where,
               "an integer is not encoded as the 8-byte integer form: %s" % [x[:2] for x in o])
        for c, a in (("str", mk_and(plain, st, mk_not(by))), ("bytes", mk_and(plain, by, mk_not(st))), ("other", mk_and(plain, mk_not(st), mk_not(by)))):
            o = ops(a)
            ctx.ob("%s.%s" % (name, c), len(o) == 1 and o[0][0] == "slice" and o[0][1] is v and o[0][3], f.where,
                   "a %s value is not encoded as a slice: %s" % (c, [x[:2] for x in o]))
        # unsupported values are refused: the TypeError of the slice form never ends in normal exit
        hs = [e for e in res.events if e.kind == "handler" and len(e.stack) >= 1]
        ok = not any(Logic().sat(mk_and(res.pc, e.pc)) for e in hs)
        ctx.ob(name + ".unsupported-refused", ok, f.where, "a value the slice form rejects is silently accepted")
        # arrays and add_all
        f2 = ctx.repo.method(cls, "add_array")
        r2 = ctx.run(f2, modules=[mod], opaque=[aq])
        v2 = var(f2.node.args.args[1].arg)
        st, by = t("isinst", v2, ("b:str",)), t("isinst", v2, ("b:bytearray", "b:bytes"))
        for c, a in (("str", mk_and(st, mk_not(by))), ("bytes", mk_and(by, mk_not(st))), ("sequence", mk_and(mk_not(st), mk_not(by)))):
            o = [x for x in optrace(r2, a, {aq: "add"}) if x[0] != "raise"]
            if c == "sequence":
                ok = len(o) == 1 and o[0][0] == "add" and o[0][1] is t("elem", v2) and o[0][2] == (v2,) and o[0][3]
            else:
                ok = len(o) == 1 and o[0][0] == "raw" and o[0][3] and (
                    _is_utf8(strip_bytes(o[0][1]), v2) if c == "str" else strip_bytes(o[0][1]) is v2)
            ctx.ob("%s.add_array.%s" % (cls.split(".")[-1], c), ok, f2.where, "array form of a %s value is %s" % (c, [x[:3] for x in o]))
        hs = [e for e in r2.events if e.kind == "handler" and len(e.stack) >= 1]
        ctx.ob(cls.split(".")[-1] + ".add_array.unsupported-refused", not any(Logic().sat(mk_and(r2.pc, e.pc)) for e in hs), f2.where,
               "a value that cannot be gone through is silently accepted as an array")
        f3 = ctx.repo.method(cls, "add_all")
        r3 = ctx.run(f3, modules=[mod], opaque=[aq])
        v3 = var(f3.node.args.vararg.arg)
        o = [x for x in optrace(r3, TRUE, {aq: "add"}) if x[0] != "raise"]
        ctx.ob(cls.split(".")[-1] + ".add_all", len(o) == 1 and o[0][0] == "add" and o[0][1] is t("elem", v3) and o[0][2] == (v3,) and o[0][3], f3.where,
               "add_all does not add every value once, in order: %s" % [x[:3] for x in o])
