"""P08 wire layout of the building blocks, P09 wire layout of transactions, P10 what a signature covers, P11 identifiers."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t

TT = "tfchain.types."
CT = TT + "ConditionTypes."
FT = TT + "FulfillmentTypes."
CR = TT + "CryptoTypes."
IO = TT + "IO."
TB = TT + "ThreeBot."
TX = TT + "transactions."

BOTH = ("sia", "rivine")

# class -> reference of the data part, written the same way in both formats
DATA = {
    CT + "ConditionNil": "def f(self, w):\n    pass",
    CT + "ConditionUnlockHash": "def f(self, w):\n    w.obj(self.unlockhash)",
    CT + "ConditionAtomicSwap": """
def f(self, w):
    w.obj(self.sender)
    w.obj(self.receiver)
    w.obj(self.hashed_secret)
    w.u64(self.lock_time)
""",
    CT + "ConditionLockTime": """
def f(self, w):
    w.u64(self.lock.value)
    w.u8(self.condition.type)
    w.data(self.condition)
""",
    CT + "ConditionMultiSignature": """
def f(self, w):
    w.u64(self.required_signatures)
    w.seq(self.unlockhashes)
""",
    FT + "FulfillmentSingleSignature": """
def f(self, w):
    w.obj(self.public_key)
    w.obj(self.signature)
""",
    FT + "FulfillmentMultiSignature": "def f(self, w):\n    w.seq(self.pairs)",
    FT + "FulfillmentAtomicSwap": """
def f(self, w):
    w.obj(self.public_key)
    w.obj(self.signature)
    w.obj(self.secret)
""",
}

TYPE_CODE = {
    CT + "ConditionNil": 0, CT + "ConditionUnlockHash": 1, CT + "ConditionAtomicSwap": 2, CT + "ConditionLockTime": 3, CT + "ConditionMultiSignature": 4,
    FT + "FulfillmentSingleSignature": 1, FT + "FulfillmentAtomicSwap": 2, FT + "FulfillmentMultiSignature": 3,
}

OUTER = """
def f(self, w):
    w.u8(self.type)
    d = encoder_%s_get()
    d.data(self)
    w.slice(d.data)
"""

# class -> reference of the whole object (same in both formats unless a pair is given)
WHOLE = {
    CT + "UnlockHash": "def f(self, w):\n    w.u8(int(self.type))\n    w.obj(self.hash)",
    FT + "PublicKeySignaturePair": "def f(self, w):\n    w.obj(self.public_key)\n    w.obj(self.signature)",
    IO + "CoinInput": "def f(self, w):\n    w.obj(self.parentid)\n    w.obj(self.fulfillment)",
    IO + "CoinOutput": "def f(self, w):\n    w.obj(self.value)\n    w.obj(self.condition)",
    IO + "BlockstakeInput": "def f(self, w):\n    w.obj(self.parentid)\n    w.obj(self.fulfillment)",
    IO + "BlockstakeOutput": "def f(self, w):\n    w.obj(self.value)\n    w.obj(self.condition)",
    TB + "BotName": "def f(self, w):\n    w.slice(self.value)",
    CR + "PublicKey": ("def f(self, w):\n    w.array(PublicKey._pad_specifier(str(self.specifier)))\n    w.slice(self.hash.value)",
                       "def f(self, w):\n    w.u8(int(self.specifier))\n    w.obj(self.hash)"),
}


def hook_int(ctx):
    return None


def p08(ctx):
    r = ctx.repo
    conds = [c for c in r.subclasses(CT + "ConditionBaseClass") if c != CT + "ConditionBaseClass"]
    ffs = [c for c in r.subclasses(FT + "FulfillmentBaseClass") if c != FT + "FulfillmentBaseClass"]
    ctx.need(set(conds) | set(ffs) >= set(DATA), "condition or fulfillment classes vanished")
    for c in conds + ffs:
        n = c.split(".")[-1]
        ctx.ob("%s.known" % n, c in DATA, r.classes[c].module.rel, "condition/fulfillment type without a protocol layout")
        if c not in DATA:
            continue
        for e in BOTH:
            wire_rule(ctx, "%s.%s.data" % (n, e), r.method(c, e + "_binary_encode_data"), DATA[c], c)
            wire_rule(ctx, "%s.%s" % (n, e), r.method(c, e + "_binary_encode"), OUTER % e, c)
        g = r.method(c, "type")
        res = ctx.run(g, modules=["tfchain.types"], self_cls=c)
        v = strip(res.val)
        ctx.ob("%s.type-code" % n, is_const(v) and cval(v) == TYPE_CODE[c] and res.pc is TRUE, g.where,
               "type code is %s, the protocol's is %d" % (short(v), TYPE_CODE[c]))
    for e, q in (("sia", ENC_GET[0]), ("rivine", ENC_GET[1])):
        g = r.fn(q)
        res = ctx.run(g)
        ctx.ob("encoder.%s" % e, res.pc is TRUE and is_encoder(res.val) and res.val.args[0].split(".")[-1] == e.capitalize() + "BinaryEncoder" and not wire(res, res.val),
               g.where, "the %s encoder is %s" % (e, short(res.val)))
    for c, src in WHOLE.items():
        n = c.split(".")[-1]
        ctx.need(c in r.classes, "class %s not found" % c)
        for k, e in enumerate(BOTH):
            wire_rule(ctx, "%s.%s" % (n, e), r.method(c, e + "_binary_encode"), src if isinstance(src, str) else src[k], c)
    # public key specifier: 16 bytes, zero padded, after the algorithm name
    f = r.fn(CR + "PublicKey._pad_specifier")
    result_rule(ctx, "PublicKey.specifier", f, """
def f(specifier):
    value = specifier.encode('utf-8')
    return value + b'\\0' * (16 - len(value))
""", None, modules=("tfchain.types",), what=("value",), args=None, sargs=None, msg="padded specifier",
                hook=lambda a, b, asm: _padhook(a, b))
    for q, what, want in (("NIL", "value", 0), ("ED25519", "value", 1)):
        _class_const(ctx, CR + "PublicKeySpecifier", q, want)
    for q, want in (("NIL", 0), ("PUBLIC_KEY", 1), ("ATOMIC_SWAP", 2), ("MULTI_SIG", 3)):
        _class_const(ctx, CT + "UnlockHashType", q, want)
    for q, want in (("HOSTNAME", 0), ("IPV4", 1), ("IPV6", 2)):
        _class_const(ctx, TB + "NetworkAddress.Type", q, want)
    f = r.method(CR + "PublicKeySpecifier", "__str__")
    res = ctx.run(f, modules=["tfchain.types"], self_cls=CR + "PublicKeySpecifier")
    L = Logic()
    out = {}
    for a in cases([y.args[0] for y in walk(res.val) if y.tag == "ite"]):
        v = simplify(res.val, a)
        out.setdefault(v, []).append(a)
    ctx.ob("PublicKeySpecifier.text", set(cval(v) for v in out if is_const(v)) == {"ed25519", ""} and all(is_const(v) for v in out), f.where,
           "specifier texts are %s" % [short(v) for v in out])
    ed = const("ed25519")
    if ed in out:
        sv = attr(var("self"), "_value")
        ctx.ob("PublicKeySpecifier.text.ed25519", all(L.implies(a, mk_eq(sv, const(1))) or _is_ed(a) for a in out[ed]), f.where,
               "the ed25519 name is used for %s" % [short(a) for a in out[ed]])
    # network address: type in the low 2 bits, length above, then the bytes; same bytes in both formats
    c = TB + "NetworkAddress"
    f = r.method(c, "rivine_binary_encode")
    wire_rule(ctx, "NetworkAddress.rivine", f, """
def f(self, w):
    w.u8(int(self._type) | (len(self._address) << 2))
    w.array(self._address)
""", c)
    f = r.method(c, "sia_binary_encode")
    sp = spec(ctx, "def f(self, w):\n    d = encoder_rivine_get()\n    d.obj(self)\n    w.array(d.data)", c)
    kw = dict(modules=("tfchain.types",), opaque_names=ENC_OPAQUE, inline=ENC_GET, self_cls=c)
    wc = WireCmp(ctx.run(f, **kw), ctx.run(sp, **kw))
    ok = wc.traces(var(f.node.args.args[-1].arg), var("w"))
    ctx.ob("NetworkAddress.sia", ok, f.where, wc.why)
    # the signature encoder classes: both formats of the flags byte
    c = TX + "ThreeBot.BotMonthsAndFlagsData"
    f = r.method(c, "rivine_binary_encode")
    wire_rule(ctx, "BotMonthsAndFlagsData.rivine", f, """
def f(self, w):
    flag = self._number_of_months
    if self._has_addresses:
        flag |= 32
    if self._has_names:
        flag |= 64
    if self._has_refund:
        flag |= 128
    w.u8(flag)
""", c)
    f = r.method(c, "sia_binary_encode")
    wc = WireCmp(ctx.run(f, **dict(kw, self_cls=c)), ctx.run(spec(ctx, "def f(self, w):\n    d = encoder_rivine_get()\n    d.obj(self)\n    w.array(d.data)", c), **dict(kw, self_cls=c)))
    ctx.ob("BotMonthsAndFlagsData.sia", wc.traces(var(f.node.args.args[-1].arg), var("w")), f.where, wc.why)
    f = r.method(c, "__init__")
    res = ctx.run(f, modules=["tfchain.types"], self_cls=c)
    for fld, prm in zip(("_number_of_months", "_has_addresses", "_has_names", "_has_refund"), [a.arg for a in f.node.args.args[1:]]):
        v = res.field(var("self"), fld)
        ctx.ob("BotMonthsAndFlagsData.%s" % fld, strip(v) is var(prm) or (v.tag == "call" and v.args[1] == (var(prm),)), f.where, "%s is %s" % (fld, short(v)))
    n = var(f.node.args.args[1].arg)
    L = Logic(int_terms=lambda x: x is n)
    ctx.ob("BotMonthsAndFlagsData.range", L.implies(res.pc, mk_and(mk_not(mk_lt(n, const(0))), mk_not(mk_lt(const(24), n)))), f.where,
           "a number of months outside [0,24] reaches the flags byte")


def _is_ed(a):
    return any(y.tag == "eq" and any("ED25519" in repr(z) or z is const(1) for z in y.args) for y in walk(a)) and a.tag != "not"


def _padhook(a, b):
    """value + zeros(16-len)  ==  value.ljust(16, b'\\0')"""
    def form(x):
        if x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "ljust" and len(x.args[1]) == 2 and x.args[1][0] is const(16) and x.args[1][1] is const(b"\0"):
            return strip(_enc(x.args[0].args[0]))
        if x.tag == "op" and x.args[0] == "+":
            v = x.args[1]
            z = x.args[2]
            if z.tag == "op" and z.args[0] == "*":
                for p, q in ((z.args[1], z.args[2]), (z.args[2], z.args[1])):
                    if const_bytes(p) == b"\0":
                        d, c = linear(q)
                        ln = t("call", t("b", "len"), (v,), ())
                        if c == 16 and d == {ln: -1}:
                            return strip(_enc(v))
        return None

    def _enc(v):
        if v.tag == "call" and v.args[0].tag == "a" and v.args[0].args[1] == "encode":
            return t("enc8", v.args[0].args[0])
        return v
    fa, fb = form(a), form(b)
    if fa is not None and fb is not None:
        return fa is fb
    return None


def _class_const(ctx, cls, name, want):
    """Class.NAME is an instance made from the protocol code `want`"""
    import ast
    c = ctx.repo.classes.get(cls)
    ctx.need(c is not None, "class %s not found" % cls)
    short_cls = cls[len(c.module.name) + 1:]
    found = []
    for s in ast.walk(c.module.tree):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == name:
            if ast.unparse(s.targets[0].value) == short_cls:
                found.append(s)
    ae = c.attrs.get(name)
    vals = []
    it = ctx.interp(["tfchain.types"])
    for s in found:
        vals.append((it._const_expr(c.module, s.value, None), s.lineno))
    if ae is not None:
        vals.append((it._const_expr(c.module, ae, c), c.node.lineno))
    ctx.need(vals, "constant %s.%s not found" % (short_cls, name))
    v = vals[-1][0]
    x = v
    if v.tag == "new" and v.args[2]:
        x = v.args[2][0]
    ctx.ob("%s.%s" % (short_cls, name), is_const(x) and cval(x) == want, "%s:%d" % (c.module.rel, vals[-1][1]), "code is %s, the protocol's is %r" % (short(v), want))
