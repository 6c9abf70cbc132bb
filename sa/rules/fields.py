"""P12 what is assigned is what is read back."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from ..lib import _truthy_instances as lib_truthy
from ..logic import Logic
from .txlayout import CLS, TX
from .objects import views
from .writes import decide

TT = "tfchain.types."
CT = TT + "ConditionTypes."
FT = TT + "FulfillmentTypes."
CR = TT + "CryptoTypes."
IO = TT + "IO."
TB = TT + "ThreeBot."

HASH = "return Hash(value=v.value) if isinstance(v, Hash) else Hash(value=v)"
SIG = "return ED25519Signature() if v is None else ED25519Signature(value=v)"
SIGA = "return ED25519Signature(as_array=True) if v is None else ED25519Signature(value=v, as_array=True)"
PK = """
if v is None:
    return PublicKey()
if not isinstance(v, PublicKey):
    raise TypeError()
return PublicKey(specifier=v.specifier, hash=v.hash)
"""
CUR = "return Currency() if v is None else Currency(value=v)"
UH = """
if v is None:
    return UnlockHash()
if isinstance(v, UnlockHash):
    return v
return UnlockHash.from_json(v)
"""


def typed(cls, default):
    return "if v is None:\n    return %s()\nif not isinstance(v, %s):\n    raise TypeError()\nreturn v\n" % (default, cls)


def rng(lo, hi):
    return "if v < %d or v > %d:\n    raise ValueError()\nreturn v" % (lo, hi)


BOTID = """
if v is None:
    return 0
if not isinstance(v, int):
    raise TypeError()
if v <= 0:
    raise ValueError()
return v
"""
SWAPUH = """
if v is None:
    return UnlockHash()
u = v
if isinstance(v, str):
    u = UnlockHash.from_json(v)
elif not isinstance(v, UnlockHash):
    raise TypeError()
if u.type != UnlockHashType.PUBLIC_KEY and u.type != UnlockHashType.NIL:
    raise ValueError()
return u
"""


def ins(kind):
    return """
out = []
if not v:
    return out
for x in v:
    o = %s(parentid=x.parentid, fulfillment=x.fulfillment)
    o.parent_output = x._parent_output
    out.append(o)
return out
""" % kind


def outs(kind):
    return """
out = []
if not v:
    return out
for x in v:
    o = %s(value=x.value, condition=x.condition)
    o.id = x.id
    out.append(o)
return out
""" % kind


def each(cls, arg, limit):
    return None


REFUND = """
x = v
if isinstance(v, list):
    if len(v) == 0:
        x = None
    elif len(v) == 1:
        x = v[0]
    else:
        raise ValueError()
if x is None:
    return []
if not isinstance(x, CoinOutput):
    raise TypeError()
o = CoinOutput(value=x.value, condition=x.condition)
o.id = x.id
return [o]
"""

TABLE = {
    (IO + "CoinInput", "parentid"): HASH,
    (IO + "CoinInput", "fulfillment"): typed("FulfillmentBaseClass", "FulfillmentSingleSignature"),
    (IO + "CoinInput", "parent_output"): typed("CoinOutput", "CoinOutput"),
    (IO + "CoinOutput", "value"): "return v if isinstance(v, Currency) else Currency(value=v)",
    (IO + "CoinOutput", "condition"): typed("ConditionBaseClass", "ConditionNil"),
    (IO + "CoinOutput", "id"): HASH,
    (IO + "BlockstakeInput", "parentid"): HASH,
    (IO + "BlockstakeInput", "fulfillment"): typed("FulfillmentBaseClass", "FulfillmentSingleSignature"),
    (IO + "BlockstakeInput", "parent_output"): typed("BlockstakeOutput", "BlockstakeOutput"),
    (IO + "BlockstakeOutput", "value"): "return v if isinstance(v, Blockstake) else Blockstake(value=v)",
    (IO + "BlockstakeOutput", "condition"): typed("ConditionBaseClass", "ConditionNil"),
    (IO + "BlockstakeOutput", "id"): HASH,
    (CT + "UnlockHash", "type"): "if v == None:\n    return UnlockHashType.NIL\nif not isinstance(v, UnlockHashType):\n    raise TypeError()\nreturn v",
    (CT + "ConditionUnlockHash", "unlockhash"): UH,
    (CT + "ConditionAtomicSwap", "sender"): SWAPUH,
    (CT + "ConditionAtomicSwap", "receiver"): SWAPUH,
    (CT + "ConditionAtomicSwap", "hashed_secret"): "return BinaryData() if v is None else AtomicSwapSecretHash(value=v)",
    (CT + "ConditionAtomicSwap", "lock_time"): "if v is None:\n    return 0\nl = OutputLock(value=v)\nif not l.is_timestamp:\n    raise TypeError()\nreturn l.value",
    (CT + "ConditionLockTime", "lock"): "return OutputLock(value=v)",
    (CT + "ConditionLockTime", "condition"): """
if v is None:
    return ConditionUnlockHash()
if not isinstance(v, ConditionBaseClass):
    raise TypeError()
if v.type not in (0, 1, 4):
    raise ValueError()
return v
""",
    (CT + "ConditionMultiSignature", "required_signatures"): "if v is None:\n    return 0\nif not isinstance(v, int):\n    raise TypeError()\nreturn int(v)",
    (CR + "PublicKey", "specifier"): "if v == None:\n    return PublicKeySpecifier.NIL\nif not isinstance(v, PublicKeySpecifier):\n    raise TypeError()\nreturn v",
    (CR + "PublicKey", "hash"): "if v is None:\n    return Hash()\nreturn v if isinstance(v, Hash) else Hash(value=v)",
    (FT + "FulfillmentSingleSignature", "public_key"): PK,
    (FT + "FulfillmentSingleSignature", "signature"): SIG,
    (FT + "FulfillmentAtomicSwap", "public_key"): PK,
    (FT + "FulfillmentAtomicSwap", "signature"): SIG,
    (FT + "FulfillmentAtomicSwap", "secret"): "return AtomicSwapSecret() if v is None else AtomicSwapSecret(value=v)",
    (FT + "PublicKeySignaturePair", "public_key"): PK,
    (FT + "PublicKeySignaturePair", "signature"): SIG,
}
DATA = """
if v is None:
    return BinaryData(strencoding='base64')
b = v
if isinstance(v, BinaryData):
    b = v.value
elif isinstance(v, str):
    b = v.encode('utf-8')
if len(b) > 83:
    raise ValueError()
return BinaryData(value=b, strencoding='base64')
"""
for _v in (1, 128, 129):
    TABLE[(CLS[_v], "data")] = DATA
for _v in (128, 129):
    TABLE[(CLS[_v], "mint_fulfillment")] = typed("FulfillmentBaseClass", "FulfillmentSingleSignature")
    TABLE[(CLS[_v], "parent_mint_condition")] = typed("ConditionBaseClass", "ConditionNil")
TABLE[(CLS[128], "mint_condition")] = typed("ConditionBaseClass", "ConditionNil")
for _v in (144, 145, 146, 208, 209, 210):
    TABLE[(CLS[_v], "transaction_fee")] = CUR
    if _v != 209:
        TABLE[(CLS[_v], "coin_outputs")] = REFUND
        TABLE[(CLS[_v], "coin_inputs")] = ins("CoinInput")
TABLE[(CLS[1], "coin_inputs")] = ins("CoinInput")
TABLE[(CLS[1], "blockstake_inputs")] = ins("BlockstakeInput")
TABLE[(CLS[1], "coin_outputs")] = outs("CoinOutput")
TABLE[(CLS[129], "coin_outputs")] = outs("CoinOutput")
TABLE[(CLS[1], "blockstake_outputs")] = outs("BlockstakeOutput")
TABLE[(CLS[144], "number_of_months")] = rng(1, 24)
TABLE[(CLS[145], "number_of_months")] = rng(0, 24)
TABLE[(CLS[144], "signature")] = SIGA
TABLE[(CLS[144], "public_key")] = PK
TABLE[(CLS[145], "signature")] = SIG
TABLE[(CLS[145], "parent_public_key")] = PK
TABLE[(CLS[145], "botid")] = BOTID
for _n in ("sender", "receiver"):
    TABLE[(CLS[146], _n + "_botid")] = BOTID
    TABLE[(CLS[146], _n + "_signature")] = SIG
    TABLE[(CLS[146], _n + "_parent_public_key")] = PK
TABLE[(CLS[210], "public_key")] = PK
TABLE[(CLS[210], "signature")] = SIG
TABLE[(CLS[208], "address")] = "return ERC20Address() if v is None else ERC20Address(value=v)"
TABLE[(CLS[208], "value")] = CUR
TABLE[(CLS[209], "value")] = CUR
TABLE[(CLS[209], "address")] = UH
for _n in ("blockid", "transactionid"):
    TABLE[(CLS[209], _n)] = "return ERC20Hash() if v is None else ERC20Hash(value=v)"


def items(make, limit):
    return """
out = []
if not v:
    return out
for x in v:
    if len(out) == %d:
        raise Exception()
    out.append(%s)
return out
""" % (limit, make)


for _c, _n, _m, _l in ((144, "names", "BotName(value=x)", 5), (146, "names", "BotName(value=x)", 5), (145, "names_to_add", "BotName(value=x)", 5), (145, "names_to_remove", "BotName(value=x)", 5),
                       (144, "addresses", "NetworkAddress(address=x)", 10), (145, "addresses_to_add", "NetworkAddress(address=x)", 10),
                       (145, "addresses_to_remove", "NetworkAddress(address=x)", 10)):
    TABLE[(CLS[_c], _n)] = items(_m, _l)

# constructors: giving a value to the constructor is assigning it
CTOR = {
    IO + "CoinInput": (("parentid", "parentid"), ("fulfillment", "fulfillment"), ("parent_output", "parent_output")),
    IO + "CoinOutput": (("value", "value"), ("condition", "condition"), ("id", "id")),
    IO + "BlockstakeInput": (("parentid", "parentid"), ("fulfillment", "fulfillment"), ("parent_output", "parent_output")),
    IO + "BlockstakeOutput": (("value", "value"), ("condition", "condition"), ("id", "id")),
    CT + "UnlockHash": (("type", "type"),),
    CT + "ConditionUnlockHash": (("unlockhash", "unlockhash"),),
    CT + "ConditionAtomicSwap": (("sender", "sender"), ("receiver", "receiver"), ("hashed_secret", "hashed_secret"), ("lock_time", "lock_time")),
    CT + "ConditionLockTime": (("condition", "condition"), ("lock", "lock")),
    CT + "ConditionMultiSignature": (("min_nr_sig", "required_signatures"),),
    CR + "PublicKey": (("specifier", "specifier"), ("hash", "hash")),
    FT + "FulfillmentSingleSignature": (("pub_key", "public_key"), ("signature", "signature")),
    FT + "FulfillmentAtomicSwap": (("pub_key", "public_key"), ("signature", "signature"), ("secret", "secret")),
    FT + "PublicKeySignaturePair": (("public_key", "public_key"), ("signature", "signature")),
}


def indent(s):
    return "\n".join("    " + l for l in s.strip("\n").split("\n"))


def same_copy(a, b, asm):
    """a copy of a value object counts as the object"""
    if a.tag == "ite" or b.tag == "ite":
        return None
    ca, cb = _orig(a), _orig(b)
    if any(x.tag == "new" and any(y.tag == "ite" for y in x.args[2] + tuple(v for _, v in x.args[3])) for x in (ca, cb)):
        return None
    if ca is not a or cb is not b:
        return ca is cb
    return None


def _orig(x):
    if x.tag == "new" and x.args[0].split(".")[-1] in ("Hash", "Currency", "Blockstake", "OutputLock") and len(x.args[2]) + len(x.args[3]) == 1:
        y = x.args[2][0] if x.args[2] else x.args[3][0][1]
        if y.tag == "ite":
            return x
        if y.tag == "a" and y.args[1] in ("value", "_value"):
            y = y.args[0]
        return t("copy", x.args[0], _orig(y) if y.tag == "new" else y)
    return x


OWNERS = """
out = []
if not unlockhashes:
    return out
for u in unlockhashes:
    if u is None:
        out.append(UnlockHash())
    elif isinstance(u, UnlockHash):
        out.append(u)
    elif isinstance(u, str):
        out.append(UnlockHash.from_json(u))
    else:
        raise TypeError()
return out
"""

ITEMS = (IO + "CoinInput", IO + "CoinOutput", IO + "BlockstakeInput", IO + "BlockstakeOutput")
INP, OUT = ("parentid", "fulfillment", "parent_output"), ("value", "condition", "id")
ADDERS = [(CLS[v], "coin_input_add", "parentid, fulfillment, parent_output", IO + "CoinInput", INP) for v in (1, 144, 145, 146, 208, 210)]
ADDERS += [(CLS[v], "coin_output_add", "value, condition, id", IO + "CoinOutput", OUT) for v in (1, 129)]
ADDERS += [(CLS[1], "blockstake_input_add", "parentid, fulfillment, parent_output", IO + "BlockstakeInput", INP),
           (CLS[1], "blockstake_output_add", "value, condition, id", IO + "BlockstakeOutput", OUT)]


def p12(ctx):
    r = ctx.repo
    decide(ctx, True)
    views(ctx)
    seen = set()
    kw = dict(modules=("tfchain.types",))
    for (c, n), src in sorted(TABLE.items()):
        g = r.setter(c, n)
        seen.add((c, n))
        key = "%s.%s" % (c.split(".")[-1], n)
        ra = ctx.run(spec(ctx, "def f(self, v):\n    self.%s = v\n    return self.%s" % (n, n), c), self_cls=c, **kw)
        rb = ctx.run(spec(ctx, "def f(self, v):\n" + indent(src), c), self_cls=c, **kw)
        compare(ctx, key, g, ra, rb, None, ("accept", "value", "raises:TypeError,ValueError"), same_copy, "%s after assigning v" % key)

    # the parts of copied inputs and outputs survive the copy
    for (c, n), src in sorted(TABLE.items()):
        if not n.endswith(("_inputs", "_outputs")):
            continue
        g = r.setter(c, n)
        parts = ("parentid", "fulfillment", "parent_output") if n.endswith("_inputs") else ("value", "condition", "id")
        for a in parts:
            key = "%s.%s[].%s" % (c.split(".")[-1], n, a)
            tail = "return [o.%s for o in %%s]" % a
            ra = ctx.run(spec(ctx, "def f(self, v):\n    self.%s = v\n    r = self.%s\n    %s" % (n, n, tail % "r"), c), self_cls=c, init=ITEMS, **kw)
            body = "def mk(v):\n" + indent(src) + "\n"
            rb = ctx.run(spec(ctx, "def f(self, v):\n" + indent(body) + "\n    r = mk(v)\n    " + tail % "r", c), self_cls=c, init=ITEMS, **kw)
            compare(ctx, key, g, ra, rb, None, ("value",), same_copy, key)
    for c, n, params, cls_, parts in ADDERS:
        f = r.method(c, n)
        for a in parts:
            key = "%s.%s(%s)" % (c.split(".")[-1], n, a)
            lst = n.replace("_add", "s")
            ra = ctx.run(spec(ctx, "def f(self, %s):\n    self.%s(%s)\n    return self.%s[-1].%s" % (
                params, n, ", ".join("%s=%s" % (p, p) for p in params.split(", ")), lst, a), c), self_cls=c, init=ITEMS, **kw)
            mk = "    o = %s()\n%s    return o.%s" % (cls_.split(".")[-1], "".join("    o.%s = %s\n" % (p, p) for p in parts), a)
            rb = ctx.run(spec(ctx, "def f(self, %s):\n%s" % (params, mk), c), self_cls=c, init=ITEMS, **kw)
            compare(ctx, key, f, ra, rb, None, ("value", "accept"), same_copy, key)

    ms = CT + "ConditionMultiSignature"
    ra = ctx.run(spec(ctx, "def f(unlockhashes, min_nr_sig):\n    o = ConditionMultiSignature(unlockhashes=unlockhashes, min_nr_sig=min_nr_sig)\n    return o.unlockhashes"), init=(ms,), **kw)
    rb = ctx.run(spec(ctx, "def f(unlockhashes, min_nr_sig):\n    o = ConditionMultiSignature()\n    o.required_signatures = min_nr_sig\n" + indent(OWNERS)), init=(ms,), **kw)
    compare(ctx, "ConditionMultiSignature(unlockhashes)", r.method(ms, "__init__"), ra, rb, None, ("value", "accept"), same_copy,
            "the owners of ConditionMultiSignature()")
    ra = ctx.run(spec(ctx, "def f(unlockhashes, min_nr_sig):\n    o = ConditionMultiSignature(unlockhashes=unlockhashes, min_nr_sig=min_nr_sig)\n    return o.required_signatures"), init=(ms,), **kw)
    rb = ctx.run(spec(ctx, "def f(self, unlockhashes, min_nr_sig):\n    v = min_nr_sig\n" + indent(TABLE[(ms, "required_signatures")])), **kw)
    compare(ctx, "ConditionMultiSignature(min_nr_sig)", r.method(ms, "__init__"), ra, rb, None, ("value",), same_copy,
            "the required signatures of ConditionMultiSignature()")

    for c, ps in CTOR.items():
        n = c.split(".")[-1]
        f = r.method(c, "__init__")
        params = ", ".join(p for p, _ in ps)
        ra = ctx.run(spec(ctx, "def f(%s):\n    o = %s(%s)\n    return (%s,)" % (
            params, n, ", ".join("%s=%s" % (p, p) for p, _ in ps), ", ".join("o." + a for _, a in ps))), init=(c,), **kw)
        for k, (p, a) in enumerate(ps):
            key = "%s(%s)" % (n, p)
            vals = []
            for x in (ra.val,):
                vals.append(_component(x, k))
            rb = ctx.run(spec(ctx, "def f(self, v):\n" + indent(TABLE[(c, a)]), c), self_cls=c, args={"v": var(p)}, **kw)
            eq = Eq(same_copy)
            asm = mk_and(ra.pc, rb.pc, lib_truthy(ctx, ra, rb))
            ctx.ob(key, eq.same(vals[0], rb.val, asm), f.where, lambda: "%s given to %s() reads back as %s, expected %s" % (
                p, n, short(simplify(vals[0], asm)), short(simplify(rb.val, asm))))
            ctx.ob(key + ".refused", Logic().implies(ra.pc, rb.pc), f.where, lambda: "%s() accepts %s when %s, expected when %s" % (n, p, short(ra.pc), short(rb.pc)))


def _component(x, k):
    if x is None or x.tag not in ("ite", "tuple"):
        return t("absent")
    if x.tag == "ite":
        return mk_ite(x.args[0], _component(x.args[1], k), _component(x.args[2], k))
    return x.args[0][k]
