"""P13 JSON form: what each writer writes, and that each reader reads the written form back."""

import re

from ..core import *
from ..lib import *
from ..logic import Logic
from ..terms import *
from ..terms import T, t
from .fields import same_copy, indent, _component
from .txlayout import CLS, TX
from .table import table
from .objects import readers

TT = "tfchain.types."
CT = TT + "ConditionTypes."
FT = TT + "FulfillmentTypes."
CR = TT + "CryptoTypes."
PT = TT + "PrimitiveTypes."
IO = TT + "IO."
TB = TT + "ThreeBot."
E20 = TT + "ERC20."

# J(kind, value): the JSON form of a part
LST = "[J('%s', e) for e in self.%s]"


def lists(*xs):
    return "".join("if len(self.%s) > 0:\n    d['%s'] = %s\n" % (a, k, LST % (c, a)) for k, c, a in xs)


REFUND = "if self._refund_coin_output is not None:\n    d['refundcoinoutput'] = J('CoinOutput', self._refund_coin_output)\n"
INS = "d['coininputs'] = %s\n" % (LST % ("CoinInput", "coin_inputs"))

# class -> (dictionary written, attributes that must survive)
DATA = {
    CT + "ConditionUnlockHash": ("d = {'unlockhash': J('UnlockHash', self.unlockhash)}", ["unlockhash"]),
    CT + "ConditionAtomicSwap": ("d = {'sender': J('UnlockHash', self.sender), 'receiver': J('UnlockHash', self.receiver), "
                                 "'hashedsecret': J('AtomicSwapSecretHash', self.hashed_secret), 'timelock': J('int', self.lock_time)}",
                                 ["sender", "receiver", "hashed_secret", "lock_time"]),
    CT + "ConditionLockTime": ("d = {'locktime': J('int', self.lock.value), 'condition': J('condition', self.condition)}", ["lock.value", "condition"]),
    CT + "ConditionMultiSignature": ("d = {'minimumsignaturecount': J('int', self.required_signatures), 'unlockhashes': %s}" % (LST % ("UnlockHash", "unlockhashes")),
                                     ["required_signatures", "unlockhashes"]),
    FT + "FulfillmentSingleSignature": ("d = {'publickey': J('PublicKey', self.public_key), 'signature': J('ED25519Signature', self.signature)}",
                                        ["public_key", "signature"]),
    FT + "FulfillmentMultiSignature": ("d = {'pairs': %s}" % (LST % ("PublicKeySignaturePair", "pairs")), ["pairs"]),
    FT + "FulfillmentAtomicSwap": ("d = {'publickey': J('PublicKey', self.public_key), 'signature': J('ED25519Signature', self.signature)}\n"
                                   "if self._secret is not None:\n    d['secret'] = J('AtomicSwapSecret', self.secret)", ["public_key", "signature", "secret"]),
}
OBJ = {
    IO + "CoinInput": ("d = {'parentid': J('Hash', self.parentid), 'fulfillment': J('fulfillment', self.fulfillment)}", ["parentid", "fulfillment"]),
    IO + "BlockstakeInput": ("d = {'parentid': J('Hash', self.parentid), 'fulfillment': J('fulfillment', self.fulfillment)}", ["parentid", "fulfillment"]),
    IO + "CoinOutput": ("d = {'value': J('Currency', self.value), 'condition': J('condition', self.condition)}", ["value", "condition"]),
    IO + "BlockstakeOutput": ("d = {'value': J('Blockstake', self.value), 'condition': J('condition', self.condition)}", ["value", "condition"]),
    FT + "PublicKeySignaturePair": ("d = {'publickey': J('PublicKey', self.public_key), 'signature': J('ED25519Signature', self.signature)}",
                                    ["public_key", "signature"]),
}
# attributes of a transaction whose JSON content is conditional, and the data written
TXD = {
    1: ("d = {}\n" + lists(("coininputs", "CoinInput", "coin_inputs"), ("coinoutputs", "CoinOutput", "coin_outputs"),
                           ("blockstakeinputs", "BlockstakeInput", "blockstake_inputs"), ("blockstakeoutputs", "BlockstakeOutput", "blockstake_outputs"),
                           ("minerfees", "Currency", "miner_fees")) + "x = J('BinaryData', self.data)\nif x:\n    d['arbitrarydata'] = x\n",
        ["coin_inputs", "coin_outputs", "blockstake_inputs", "blockstake_outputs", "miner_fees", "data"]),
    128: ("d = {'nonce': J('BinaryData', self._nonce), 'mintfulfillment': J('fulfillment', self.mint_fulfillment), "
          "'mintcondition': J('condition', self.mint_condition), 'minerfees': %s, 'arbitrarydata': J('BinaryData', self.data)}" % (LST % ("Currency", "miner_fees")),
          ["_nonce", "mint_fulfillment", "mint_condition", "miner_fees", "data"]),
    129: ("d = {'nonce': J('BinaryData', self._nonce), 'mintfulfillment': J('fulfillment', self.mint_fulfillment), "
          "'coinoutputs': %s, 'minerfees': %s, 'arbitrarydata': J('BinaryData', self.data)}" % (
              LST % ("CoinOutput", "coin_outputs"), LST % ("Currency", "miner_fees")),
          ["_nonce", "mint_fulfillment", "coin_outputs", "miner_fees", "data"]),
    144: ("d = {'nrofmonths': J('int', self.number_of_months), 'txfee': J('Currency', self.transaction_fee), 'identification': {"
          "'publickey': J('PublicKey', self.public_key), 'signature': J('ED25519Signature', self.signature)}}\n" + INS + lists(
              ("addresses", "NetworkAddress", "addresses"), ("names", "BotName", "names")) + REFUND,
          ["number_of_months", "transaction_fee", "public_key", "signature", "coin_inputs", "addresses", "names", "_refund_coin_output"]),
    145: ("d = {'id': J('int', self.botid), 'nrofmonths': J('int', self.number_of_months), 'txfee': J('Currency', self.transaction_fee), "
          "'signature': J('ED25519Signature', self.signature)}\n" + INS + """
if len(self.addresses_to_add) > 0 or len(self.addresses_to_remove) > 0:
    a = {}
    if len(self.addresses_to_add) > 0:
        a['add'] = [J('NetworkAddress', e) for e in self.addresses_to_add]
    if len(self.addresses_to_remove) > 0:
        a['remove'] = [J('NetworkAddress', e) for e in self.addresses_to_remove]
    d['addresses'] = a
if len(self.names_to_add) > 0 or len(self.names_to_remove) > 0:
    a = {}
    if len(self.names_to_add) > 0:
        a['add'] = [J('BotName', e) for e in self.names_to_add]
    if len(self.names_to_remove) > 0:
        a['remove'] = [J('BotName', e) for e in self.names_to_remove]
    d['names'] = a
""" + REFUND,
          ["botid", "number_of_months", "transaction_fee", "signature", "coin_inputs", "addresses_to_add", "addresses_to_remove", "names_to_add",
           "names_to_remove", "_refund_coin_output"]),
    146: ("d = {'sender': {'id': J('int', self.sender_botid), 'signature': J('ED25519Signature', self.sender_signature)}, "
          "'receiver': {'id': J('int', self.receiver_botid), 'signature': J('ED25519Signature', self.receiver_signature)}, "
          "'names': %s, 'txfee': J('Currency', self.transaction_fee)}\n" % (LST % ("BotName", "names")) + INS + REFUND,
          ["sender_botid", "sender_signature", "receiver_botid", "receiver_signature", "names", "transaction_fee", "coin_inputs", "_refund_coin_output"]),
    208: ("d = {'address': J('ERC20Address', self.address), 'value': J('Currency', self.value), 'txfee': J('Currency', self.transaction_fee)}\n" + INS + REFUND,
          ["address", "value", "transaction_fee", "coin_inputs", "_refund_coin_output"]),
    209: ("d = {'address': J('UnlockHash', self.address), 'value': J('Currency', self.value), 'txfee': J('Currency', self.transaction_fee), "
          "'blockid': J('ERC20Hash', self.blockid), 'txid': J('ERC20Hash', self.transactionid)}\n",
          ["address", "value", "transaction_fee", "blockid", "transactionid"]),
    210: ("d = {'pubkey': J('PublicKey', self.public_key), 'tftaddress': J('UnlockHash', self.public_key.unlockhash), "
          "'erc20address': J('ERC20Address', ERC20Address.from_unlockhash(self.public_key.unlockhash)), "
          "'signature': J('ED25519Signature', self.signature), 'regfee': J('Currency', self.registration_fee), "
          "'txfee': J('Currency', self.transaction_fee)}\n" + INS + REFUND,
          ["public_key", "signature", "transaction_fee", "coin_inputs", "_refund_coin_output"]),
}

KW = dict(modules=(TT[:-1],), opaque_names=("json", "from_json", "__str__", "unlockhash", "from_unlockhash"))


def written(src):
    """the reference dictionary with the parts' own JSON writers"""
    return re.sub(r"J\('\w+', ", "J_(", re.sub(r"J\('int', ", "(", src))


def jn(x):
    """E.json() and J(kind, E) are the JSON form of E"""
    def go(y):
        if y.tag == "call" and not y.args[2]:
            f = y.args[0]
            if f.tag == "bm" and f.args[0].split(".")[-1] in ("json", "__str__") and not y.args[1]:
                return t("J", subst(f.args[1], go))
            if f.tag == "a" and f.args[1] == "json" and not y.args[1]:
                return t("J", subst(f.args[0], go))
            if f.tag == "undef" and f.args[0] == "J_" and len(y.args[1]) == 1:
                return t("J", subst(y.args[1][0], go))
            if f.tag == "b" and f.args[0] == "str" and len(y.args[1]) == 1:
                return None
        return None
    return subst(x, go) if isinstance(x, T) else x


def truthlen(x):
    """a mapped list is empty exactly when the list it maps is; presence tests written in any form"""
    def base(y):
        while y.tag == "map" and y.args[2] is TRUE:
            y = y.args[1]
        return y

    def go(y):
        if y.tag == "map" and y.args[2] is TRUE:
            return None
        if y.tag == "lt" and y.args[0].tag == "c" and y.args[0].args[1] == 0 and _is_len(y.args[1]):
            return base(y.args[1].args[1][0])
        return None
    return subst(x, go)


def _is_len(y):
    return y.tag == "call" and y.args[0].tag == "b" and y.args[0].args[0] == "len"


def gates(x):
    """in gate positions a list stands for its non-emptiness"""
    def cond(c):
        if c.tag in ("and", "or"):
            return t(c.tag, *[cond(z) if isinstance(z, T) else tuple(cond(w) for w in z) if isinstance(z, tuple) else z for z in c.args])
        if c.tag == "not":
            return mk_not(cond(c.args[0]))
        y = c
        while y.tag == "map" and y.args[2] is TRUE:
            y = y.args[1]
        return y
    memo = {}

    def go(y):
        if y.tag == "ite":
            c = cond(y.args[0])
            if c is not y.args[0]:
                return mk_ite(subst(c, go), subst(y.args[1], go), subst(y.args[2], go))
        return None
    return subst(x, go)


READERS = {
    "condition": CT + "from_json", "fulfillment": FT + "from_json",
}


def cancel(x):
    """reading the JSON form of a part gives the part back (each part's own pair is an obligation of this property)"""
    def jarg(y):
        if y.tag == "call" and y.args[0].tag == "undef" and y.args[0].args[0] == "J":
            return cval(y.args[1][0]), y.args[1][1]
        return None

    def go(y):
        if y.tag == "call" and y.args[0].tag == "undef" and jarg(y)[0] == "int":
            return subst(jarg(y)[1], go)
        if y.tag == "ite" and y.args[0] is y.args[1] and is_const(y.args[2]) and not cval(y.args[2]):
            # x or default: an empty JSON form belongs to an unset part, for which the default is read
            if jarg(y.args[0]) is not None:
                return subst(y.args[0], go)
        if y.tag == "call" and y.args[1] and isinstance(y.args[1][0], T):
            f, a0 = y.args[0], y.args[1][0]
            j = jarg(a0)
            if j is not None:
                k, v = j
                if f.tag == "bm" and f.args[0].split(".")[-1] == "from_json" and f.args[1].tag == "cls" and f.args[1].args[0].split(".")[-1] == k:
                    return subst(v, go)
                if f.tag == "fn" and f.args[0] == READERS.get(k):
                    return subst(v, go)
            if f.tag == "b" and f.args[0] == "int" and len(y.args[1]) == 1 and not y.args[2]:
                return subst(a0, go)
        if y.tag == "new" and len(y.args[2]) + len(y.args[3]) >= 1:
            a0 = y.args[2][0] if y.args[2] else dict(y.args[3]).get("value")
            j = jarg(a0) if a0 is not None else None
            if j is not None and j[0] == y.args[0].split(".")[-1]:
                return subst(j[1], go)
        if y.tag == "map" and y.args[2] is TRUE:
            b, it = subst(y.args[0], go), subst(y.args[1], go)
            return fuse(b, it)
        return None
    return subst(x, go)


def nothing(x):
    return x.tag in ("list", "tuple") and not x.args[0] or x.tag == "c" and cval(x) in ((), "", b"")


def fuse(b, it):
    """map over a map, over a gated list, over nothing"""
    if nothing(it):
        return t("list", ())
    if it.tag == "ite":
        e = t("elem", it)
        return mk_ite(it.args[0], fuse(subst(b, lambda z: t("elem", it.args[1]) if z is e else None), it.args[1]),
                      fuse(subst(b, lambda z: t("elem", it.args[2]) if z is e else None), it.args[2]))
    if it.tag == "map" and it.args[2] is TRUE:
        e = t("elem", it)
        return fuse(cancel(subst(b, lambda z: it.args[0] if z is e else None)), it.args[1])
    if b.tag == "elem" and b.args[0] is it:
        return it
    return t("map", b, it, TRUE)


COPIES = ("Hash", "Currency", "Blockstake", "ED25519Signature", "AtomicSwapSecret", "AtomicSwapSecretHash", "OutputLock", "ERC20Hash", "ERC20Address", "BinaryData")


def peel(x):
    """a copy of a value object counts as the object"""
    while isinstance(x, T):
        if x.tag == "new" and x.args[0].split(".")[-1] in COPIES:
            kw = dict(x.args[3])
            y = x.args[2][0] if x.args[2] else kw.get("value")
            if y is None or is_const(y):
                return x
            if y.tag == "a" and y.args[1] in ("value", "_value"):
                y = y.args[0]
            x = y
        elif x.tag == "new" and x.args[0].endswith(".PublicKey"):
            kw = dict(x.args[3])
            a = kw.get("specifier") or (x.args[2][0] if x.args[2] else None)
            b = kw.get("hash") or (x.args[2][1] if len(x.args[2]) > 1 else None)
            if a is None or b is None or a.tag != "a" or a.args[1] not in ("specifier", "_specifier"):
                return x
            o = a.args[0]
            hs = [y for y in walk(b) if y.tag == "a" and y.args[1] in ("hash", "_hash")]
            if not hs or any(h.args[0] is not o for h in hs) or (b.tag == "new" and (b.args[2] or b.args[3]) and peel(b) is b):
                return x
            x = o
        else:
            return x
    return x


def copies(eq):
    def hook(a, b, asm):
        if not (isinstance(a, T) and isinstance(b, T)) or a.tag == "ite" or b.tag == "ite":
            return None
        x, y = a, b
        if a.tag == "new" and has_ite(a):
            x = simplify(a, asm)
        if b.tag == "new" and has_ite(b):
            y = simplify(b, asm)
        x, y = peel(x), peel(y)
        if x is not a or y is not b:
            return eq().same(x, y, asm)
        return None
    return hook


def has_ite(x):
    return any(y.tag == "ite" for y in walk(x))


def facts(ctx, terms):
    """what is known of the parts the reference dictionary was written from"""
    kinds = {}
    for x in terms:
        for y in walk(x):
            if y.tag == "call" and y.args[0].tag == "undef" and y.args[0].args[0] == "J":
                kinds[fix(y.args[1][1])] = cval(y.args[1][0])
    return kinds


def facts_of(ctx, kinds, terms):
    out = []
    names = {c.split(".")[-1]: c for c in ctx.repo.classes}
    base = {"condition": CT + "ConditionBaseClass", "fulfillment": FT + "FulfillmentBaseClass"}
    for x in terms:
        for y in walk(x):
            if y.tag == "call" and y.args[0].tag == "undef" and y.args[0].args[0] == "J":
                out.append(y)
            if y.tag == "is" and y.args[1] is NONE and y.args[0] in kinds:
                out.append(mk_not(y))
            if y.tag == "isinst" and y.args[0] in kinds:
                c = base.get(kinds[y.args[0]]) or names.get(kinds[y.args[0]])
                cs = y.args[1] if isinstance(y.args[1], tuple) else (y.args[1],)
                if kinds[y.args[0]] == "int":
                    out.append(y if "b:int" in cs else mk_not(y))
                elif any(q in ctx.repo.classes and ctx.repo.is_sub(c, q) for q in cs):
                    out.append(y)
                elif all(q.startswith("b:") for q in cs):
                    out.append(mk_not(y))
    return mk_and(*out)


def orempty(x):
    """x or [] / n or 0 have the value of x"""
    def go(y):
        if y.tag == "ite":
            c, a, b = (subst(z, go) for z in y.args)
            if nothing(b) and b is not const("") or b is const(0):
                d = c
                while d.tag == "ite" and d.args[2] in (FALSE, NONE):
                    d = mk_and(d.args[0], d.args[1])
                ps = d.args[0] if d.tag == "and" else (d,)
                a = simplify(a, d)
                if all(_nonempty_of(p) is a for p in ps):
                    return a
                if b is not const(0):
                    ne = t("nonempty", a)
                    if Logic().implies(ne, boolform(c)):
                        return a
            return mk_ite(c, a, b)
        return None
    return subst(x, go)


def boolform(c):
    """the truth value of a term, lists standing for their non-emptiness"""
    if c.tag in ("and", "or"):
        ps = c.args[0] if isinstance(c.args[0], tuple) else c.args
        ps = [boolform(p) for p in ps]
        return mk_and(*ps) if c.tag == "and" else mk_or(*ps)
    if c.tag == "not":
        return mk_not(boolform(c.args[0]))
    if c.tag == "ite":
        g, a, b = boolform(c.args[0]), boolform(c.args[1]), boolform(c.args[2])
        return mk_or(mk_and(g, a), mk_and(mk_not(g), b))
    if is_const(c):
        return TRUE if cval(c) else FALSE
    if c.tag == "list":
        return TRUE if c.args[0] else FALSE
    if c.tag == "nonempty":
        return t("nonempty", _nonempty_of(c.args[0]))
    if c.tag == "lt" and c.args[0].tag == "c" and c.args[0].args[1] == 0 and _is_len(c.args[1]):
        return t("nonempty", _nonempty_of(c))
    if c.tag == "map" and c.args[2] is TRUE or c.tag == "a":
        return t("nonempty", _nonempty_of(c))
    return c


def _nonempty_of(c):
    if c.tag == "lt" and c.args[0].tag == "c" and c.args[0].args[1] == 0 and _is_len(c.args[1]):
        c = c.args[1].args[1][0]
    while c.tag == "map" and c.args[2] is TRUE:
        c = c.args[1]
    return c


def fix(x):
    for _ in range(6):
        y = cancel(x)
        if y is x:
            return y
        x = y
    return x


def p13(ctx):
    p13_rest(ctx)
    readers(ctx)
    r = ctx.repo
    # writers
    for c, (src, attrs) in list(DATA.items()) + list(OBJ.items()) + [(CLS[v], x) for v, x in TXD.items()]:
        name = c.split(".")[-1]
        m = "json_data_object" if c in DATA else "json" if c in OBJ else "_json_data_object"
        fn = r.method(c, m)
        ctx.need(fn is not None, "%s.%s not found" % (c, m))
        kw = dict(KW)
        ra = ctx.run(fn, self_cls=c, **kw)
        rb = ctx.run(spec(ctx, "def f(self):\n" + indent(written(src)) + "\n    return d", c), self_cls=c, **kw)
        va, vb = gates(truthlen(jn(ra.val))), gates(truthlen(jn(rb.val)))
        eq = Eq(same_copy)
        diff = []
        ok = is_dictish(va) and is_dictish(vb) and eq.same_dict(va, vb, TRUE, diff)
        ctx.ob("%s.json" % name, ok, fn.where, lambda: "the JSON form of %s: %s" % (name, "; ".join(diff) or "is " + short(va)))
        ctx.ob("%s.json.always" % name, Logic().implies(TRUE, ra.pc), fn.where, lambda: "the JSON form of %s is refused unless %s" % (name, short(ra.pc)))
    # readers, on the form just pinned
    for c, (src, attrs) in list(DATA.items()) + list(OBJ.items()) + [(CLS[v], x) for v, x in TXD.items()]:
        name = c.split(".")[-1]
        if c in OBJ:
            fn, read = r.method(c, "from_json"), "o = %s.from_json(d)" % name
        else:
            m = "from_json_data_object" if c in DATA else "_from_json_data_object"
            fn, read = r.method(c, m), "o = %s()\no.%s(d)" % (name, m)
        ctx.need(fn is not None, "%s reader not found" % c)
        kw = dict(KW)
        if c in OBJ:
            kw["opaque_names"] = tuple(x for x in KW["opaque_names"])
        for a in attrs:
            sp = spec(ctx, "def f(self):\n%s\n%s\n    return o.%s" % (indent(src), indent(read), a), c)
            ra = ctx.run(sp, self_cls=c, init=(c, CT + "OutputLock"), inline=(c + ".from_json",), **kw)
            rb = ctx.run(spec(ctx, "def f(self):\n    return self.%s" % a, c), self_cls=c, init=(c, CT + "OutputLock"), **kw)
            va = orempty(fix(ra.val)) if ra.val is not None else t("nothing")
            vb = rb.val
            pc = fix(ra.pc)
            k = facts(ctx, [ra.val if ra.val is not None else NONE, ra.pc])
            asm = facts_of(ctx, k, [va, vb, pc])
            if "_refund" not in a:
                for y in alts(vb):
                    asm = mk_and(asm, mk_not(mk_isnone(y)))
            box = []
            eq = Eq(copies(lambda: box[0]))
            box.append(eq)
            ok = eq.same(gates(truthlen(va)), gates(truthlen(vb)), gates(truthlen(asm)))
            ctx.ob("%s.%s.read" % (name, a), ok, fn.where, lambda: "%s.%s written as JSON reads back as %s" % (name, a, short(simplify(va, asm))))


def alts(x):
    if x.tag == "ite":
        return alts(x.args[1]) + alts(x.args[2])
    return [x] if x.tag == "a" else []


# ------------------------------------------------------------------ dispatch and leaves

PX = PT
LEAF_VAL = dict(modules=(TT[:-1],))


def _disp(pairs, exc="ValueError", default=0, key="type"):
    s = "def f(obj):\n    x = obj.get('%s', %d)\n" % (key, default)
    for n, c in pairs:
        s += "    if x == %d:\n        return %s.from_json(obj)\n" % (n, c)
    return s + "    raise %s('')" % exc


def p13_rest(ctx):
    J = dict(modules=(TT[:-1],), opaque_names=("from_json", "legacy_from_json", "json", "json_data_object", "from_json_data_object", "_json_data_object", "_from_json_data_object"))
    base_w = "def f(self):\n    d = {'type': int(self.type)}\n    x = self.json_data_object()\n    if x:\n        d['data'] = x\n    return d"
    rows = [
        ("condition.dispatch", None, CT + "from_json", _disp([(0, "ConditionNil"), (1, "ConditionUnlockHash"), (2, "ConditionAtomicSwap"), (3, "ConditionLockTime"),
                                                            (4, "ConditionMultiSignature")]), "condition read from JSON", dict(J, what=("value", "accept", "raises:ValueError"))),
        ("fulfillment.dispatch", None, FT + "from_json", _disp([(1, "FulfillmentSingleSignature"), (2, "FulfillmentAtomicSwap"), (3, "FulfillmentMultiSignature")]),
         "fulfillment read from JSON", dict(J, what=("value", "accept", "raises:ValueError"))),
    ]
    for c in (CT + "ConditionBaseClass", FT + "FulfillmentBaseClass"):
        n = c.split(".")[-1]
        # a nil condition has no data; every other kind always has
        rows.append((n + ".json", c, "json", base_w if c == CT + "ConditionBaseClass" else
                     "def f(self):\n    return {'type': int(self.type), 'data': self.json_data_object()}", "JSON form", dict(J, hook=_intwrap)))
    rows.append(("Transaction.json", TX + "Base.TransactionBaseClass", "json", """
def f(self):
    d = {'version': int(self.version)}
    x = self._json_data_object()
    if x:
        d['data'] = x
    return d
""", "JSON form of a transaction", J))
    for q, m, k in ((CT + "ConditionBaseClass", "from_json_data_object", "type"), (FT + "FulfillmentBaseClass", "from_json_data_object", "type"),
                    (TX + "Base.TransactionBaseClass", "_from_json_data_object", "version")):
        for c in ctx.repo.subclasses(q):
            if c == q:
                continue
            rows.append((c.split(".")[-1] + ".from_json", c, "from_json", """
def f(cls, obj):
    o = cls()
    if o.%s != obj.get('%s', %d):
        raise ValueError('')
    o.%s(obj.get('data', {}))
    return o
""" % (k, k, -1 if k == "version" else 0, m), "reading the JSON form", dict(J, what=("value", "accept", "calls:" + m), kind="classmethod")))
    leaf = dict(modules=(TT[:-1],), opaque_names=("is_timestamp",))
    for c in (PT + "Hash", E20 + "ERC20Hash", E20 + "ERC20Address", CT + "AtomicSwapSecret", CT + "AtomicSwapSecretHash", FT + "ED25519Signature"):
        n = c.split(".")[-1]
        if n.startswith("Atomic"):
            rows.append((n + ".from_json", c, "from_json", """
def f(cls, obj):
    if not isinstance(obj, str):
        raise TypeError('')
    return %s(value=obj)
""" % n, "text read as %s" % n, dict(leaf, what=("value", "accept", "raises:TypeError"), kind="classmethod")))
        else:
            rows.append((n + ".from_json", c, "from_json", """
def f(cls, obj):
    if obj is not None and not isinstance(obj, str):
        raise TypeError('')
    if obj == '':
        obj = None
    return %s(value=obj%s)
""" % (n, ", as_array=False" if n.startswith("ED") else ""), "text read as %s" % n, dict(leaf, what=("value", "accept", "raises:TypeError"), kind="classmethod")))
        if n != "Hash":
            rows.append((n + ".json", c, "json", "def f(self):\n    return self._to_str(self._value)", "text of %s" % n, dict(leaf, opaque_names=("_to_str",))))
    rows += [
        ("Hash.json", PT + "Hash", "json", "def f(self):\n    x = self._to_str(self._value)\n    if not x:\n        return '0' * 64\n    return x",
         "text of a hash", dict(leaf, opaque_names=("_to_str",))),
        ("BinaryData.json", PT + "BinaryData", "json", "def f(self):\n    return self._to_str(self._value)", "text of binary data", dict(leaf, opaque_names=("_to_str",))),
        ("BinaryData.from_json", PT + "BinaryData", "from_json", """
def f(cls, obj, fixed_size=None, strencoding=None):
    if obj is not None and not isinstance(obj, str):
        raise TypeError('')
    return BinaryData(value=None if obj == '' else obj, fixed_size=fixed_size, strencoding=strencoding)
""", "text read as binary data", dict(leaf, what=("value", "accept", "raises:TypeError"), kind="classmethod")),
        ("Blockstake.from_json", PT + "Blockstake", "from_json", """
def f(cls, obj):
    if obj is not None and not isinstance(obj, str):
        raise TypeError('')
    return Blockstake(value=None if obj == '' else obj)
""", "text read as a block stake amount", dict(leaf, what=("value", "accept", "raises:TypeError"), kind="classmethod")),
        ("BotName.json", TB + "BotName", "json", "def f(self):\n    return self.value", "text of a name", leaf),
        ("NetworkAddress.json", TB + "NetworkAddress", "json", "def f(self):\n    return self.value", "text of a network address", dict(leaf, props=False)),
        ("BotName.from_json", TB + "BotName", "from_json", """
def f(cls, obj):
    if obj is not None and not isinstance(obj, str):
        raise TypeError('')
    return BotName(value=None if obj == '' else obj)
""", "name read", dict(leaf, kind="classmethod")),
        ("NetworkAddress.from_json", TB + "NetworkAddress", "from_json", """
def f(cls, obj):
    if obj is not None and not isinstance(obj, str):
        raise TypeError('')
    return NetworkAddress(address=None if obj == '' else obj)
""", "network address read", dict(leaf, kind="classmethod")),
        ("factory.address", TB + "ThreeBotTypesFactory", "network_address_new", "def f(self, address=None, network_type=None):\n    return NetworkAddress(address=address, network_type=network_type)",
         "a new network address", dict(leaf)),
        ("factory.address.read", TB + "ThreeBotTypesFactory", "network_address_from_json", "def f(self, obj):\n    return NetworkAddress.from_json(obj)", "network address read",
         dict(leaf, opaque_names=("from_json",))),
        ("factory.name", TB + "ThreeBotTypesFactory", "bot_name_new", "def f(self, value=None):\n    return BotName(value=value)", "a new name", dict(leaf)),
        ("factory.name.read", TB + "ThreeBotTypesFactory", "bot_name_from_json", "def f(self, obj):\n    return BotName.from_json(obj)", "name read", dict(leaf, opaque_names=("from_json",))),
        ("NetworkAddress.text", TB + "NetworkAddress", "value", """
def f(self):
    if self._type == NetworkAddress.Type.HOSTNAME:
        return self._address.decode('utf-8')
    return str(ipaddress.ip_address(self._address))
""", "text of a network address", leaf),
        ("BotName.text", TB + "BotName", "value", "def f(self):\n    return '' if self._value is None else self._value", "text of a name", leaf),
    ]
    table(ctx, rows)
    legacy(ctx)
    textcodec(ctx)
    f = ctx.repo.fn(TX + "Transactions.from_json")
    result_rule(ctx, "Transactions.from_json", f, _txdispatch(), None, modules=(TT[:-1],), opaque_names=("from_json", "legacy_from_json"),
                what=("value", "accept", "stores:id", "raises:UnknownTransansactionVersion"), msg="transaction read from JSON", pre=lambda x: vernum(ctx, x))


def vernum(ctx, x):
    """a transaction version constant is its number (equality and int of versions are pinned by P09)"""
    def go(y):
        if y.tag == "a" and y.args[0].tag == "cls" and y.args[0].args[0].endswith(".TransactionVersion"):
            v = class_const(ctx, y)
            if v.tag == "new" and len(v.args[2]) == 1:
                return v.args[2][0]
        return None
    return subst(x, go)


def _intwrap(a, b, asm):
    x, y = strip(a), strip(b)
    if (x is not a or y is not b) and a.tag == "call" and a.args[0].tag == "b" and a.args[0].args[0] == "int" and not b.tag == "ite":
        return x is y
    if b.tag == "call" and b.args[0].tag == "b" and b.args[0].args[0] == "int" and a.tag != "ite":
        return x is y
    return None



LEGACY = {
    "coin_inputs": "[CoinInput.from_json({'parentid': i.get('parentid', ''), 'fulfillment': {'type': 1, 'data': {"
                   "'publickey': i.get('unlocker', {}).get('condition', {}).get('publickey'), "
                   "'signature': i.get('unlocker', {}).get('fulfillment', {}).get('signature')}}}) for i in L('coininputs')]",
    "coin_outputs": "[CoinOutput.from_json({'value': i.get('value', '0'), 'condition': {'type': 1, 'data': {'unlockhash': i.get('unlockhash', '')}}}) for i in L('coinoutputs')]",
    "blockstake_inputs": "[BlockstakeInput.from_json({'parentid': i.get('parentid', ''), 'fulfillment': {'type': 1, 'data': {"
                         "'publickey': i.get('unlocker', {}).get('condition', {}).get('publickey'), "
                         "'signature': i.get('unlocker', {}).get('fulfillment', {}).get('signature')}}}) for i in L('blockstakeinputs')]",
    "blockstake_outputs": "[BlockstakeOutput.from_json({'value': i.get('value', '0'), 'condition': {'type': 1, 'data': {'unlockhash': i.get('unlockhash', '')}}}) "
                          "for i in L('blockstakeoutputs')]",
    "miner_fees": "[Currency.from_json(i) for i in L('minerfees')]",
    "_data": "(BinaryData.from_json(obj['data'].get('arbitrarydata', None) or '', strencoding='base64') if 'arbitrarydata' in obj['data'] else TransactionV1()._data)",
    "_legacy": "True",
}


def legacy(ctx):
    """a version 0 transaction becomes the version 1 transaction of the same parts"""
    c = CLS[1]
    f = ctx.repo.method(c, "legacy_from_json")
    kw = dict(modules=(TT[:-1],), opaque_names=("from_json",), init=(c,), inline=(f.qual,))
    run = lambda src: ctx.run(spec(ctx, src, c), self_cls=c, **kw)
    for a, src in LEGACY.items():
        ra = run("def f(self, obj):\n    return TransactionV1.legacy_from_json(obj).%s" % a)
        src = re.sub(r"L\('(\w+)'\)", r"((obj['data']['\1'] or []) if '\1' in obj['data'] else [])", src)
        rb = run("def f(self, obj):\n    return " + src)
        compare(ctx, "legacy." + a, f, ra, rb, assume=ra.pc, what=("value",), msg="version 0 transaction", pre=mapnorm)
    result_rule(ctx, "legacy.accept", f, """
def f(cls, obj):
    if obj.get('version', -1) != 0 or 'data' not in obj:
        raise ValueError('')
""", c, kind="classmethod", modules=(TT[:-1],), opaque_names=("from_json",), what=("accept",), msg="version 0 transaction", pre=lambda x: vernum(ctx, x))


def _txdispatch():
    s = "def f(obj, id=None):\n    if isinstance(obj, (str, bytes, bytearray)):\n        obj = json_loads(obj)\n"
    s += "    if not isinstance(obj, dict):\n        raise TypeError('')\n    v = obj.get('version', -1)\n"
    for i, v in enumerate(sorted(CLS)):
        s += "    %s v == TransactionVersion.%s:\n        x = TransactionV%d.from_json(obj)\n" % ("if" if not i else "elif", VERSIONS[v], v)
    s += "    elif v == TransactionVersion.LEGACY:\n        x = TransactionV1.legacy_from_json(obj)\n    else:\n        raise UnknownTransansactionVersion('')\n"
    return s + "    x.id = id\n    return x\n"


VERSIONS = {0: "LEGACY", 1: "STANDARD", 128: "MINTER_DEFINITION", 129: "MINTER_COIN_CREATION", 144: "THREEBOT_REGISTRATION", 145: "THREEBOT_RECORD_UPDATE",
            146: "THREEBOT_NAME_TRANSFER", 208: "ERC20_CONVERT", 209: "ERC20_COIN_CREATION", 210: "ERC20_ADDRESS_REGISTRATION"}


def mapnorm(x):
    """a map over a gated list is the gated map"""
    def go(y):
        if y.tag == "map" and y.args[2] is TRUE:
            return fuse(subst(y.args[0], go), subst(y.args[1], go))
        return None
    return subst(x, go)


def textcodec(ctx):
    """the text forms of binary data: hex, base64 and 0x-prefixed hex, each with its inverse"""
    c = PT + "BinaryData"
    f = ctx.repo.method(c, "__init__")
    src = """
def f(self, value=None, fixed_size=None, strencoding=None):
    if strencoding is not None and not isinstance(strencoding, str):
        raise TypeError('')
    if strencoding is None or strencoding.lower().strip() == 'hex':
        self._from_str = lambda s: bytearray.fromhex(s)
        self._to_str = lambda v: v.hex()
    elif strencoding.lower().strip() == 'base64':
        self._from_str = lambda s: bytearray(base64.b64decode(s))
        self._to_str = lambda v: base64.b64encode(v).decode()
    elif strencoding.lower().strip() == 'hexprefix':
        self._from_str = lambda s: bytearray.fromhex(s[2:] if s.startswith('0x') or s.startswith('0X') else s)
        self._to_str = lambda v: '0x' + v.hex()
    else:
        raise TypeError('')
    self._strencoding = strencoding
"""
    kw = dict(modules=(TT[:-1],), self_cls=c, props=False, opaque_names=("__len__",))
    ra, rb, _, _ = pair(ctx, f, spec(ctx, src, c), **kw)
    sv = var("self")
    for a in ("_from_str", "_to_str", "_strencoding"):
        x, y = ra.deflam(ra.field(sv, a)), rb.deflam(rb.field(sv, a))
        ctx.ob("text.%s" % a, Eq().same(x, y, mk_and(ra.pc, rb.pc)), f.where, lambda: "%s is %s, expected %s" % (a, short(x, 600), short(y, 600)))
