"""P34: values that hold the same compare, hash and convert the same; also the readers and plain views P12 and P13 rest on."""

from ..core import *
from ..lib import *
from ..terms import *
from .txlayout import CLS, TX
from .table import table


def fuse(*a):
    from .jsonfmt import fuse as f
    return f(*a)

TT = "tfchain.types."
CT = TT + "ConditionTypes."
FT = TT + "FulfillmentTypes."
CR = TT + "CryptoTypes."
PT = TT + "PrimitiveTypes."
IO = TT + "IO."
TB = TT + "ThreeBot."
E20 = TT + "ERC20."
CL = "tfchain.TFChainClient."
TY = dict(modules=("tfchain.types",))
CLI = dict(modules=("tfchain.types", "tfchain.TFChainClient"))


def tag(c):
    """kinds that stand for a number: kept as given, equal to the number"""
    n = c.split(".")[-1]
    what = "network" if n == "NetworkType" else "kind"
    return [
        (n + "(value)", c, "__init__", "def f(self, value):\n    self._value = value.value if isinstance(value, %s) else value" % n, "the number of a %s" % what, dict(CLI, what=("fields:_value", "accept"))),
        (n + ".value", c, "value", "def f(self):\n    return self._value", "the number of a %s" % what, CLI),
        (n + "==", c, "__eq__", "def f(self, other):\n    return self._value == (other.value if isinstance(other, %s) else other)" % n, "equality of a %s" % what, dict(CLI, hook=reflected)),
        (n + ".int", c, "__int__", "def f(self):\n    return self._value", "the number of a %s" % what, CLI),
    ]


def reflected(a, b, asm):
    if a.tag == "a" and b.tag == "a" and {a.args[1], b.args[1]} <= {"value", "_value"} and a.args[0] is b.args[0]:
        return True
    return None


def held(x):
    """the text of an identifier that is set"""
    def step(y):
        if y.tag == "call" and y.args[0] is t("b", "str") and len(y.args[1]) == 1:
            z = y.args[1][0]
            if z.tag == "ite" and z.args[0] is z.args[1] and z.args[1].tag == "a" and z.args[1].args[1] == "_id":
                return t("call", y.args[0], (z.args[1],), y.args[2])
        return None
    return subst(x, step)


def p34(ctx):
    rows = []
    for c in (CL + "NetworkType", CT + "UnlockHashType", CR + "PublicKeySpecifier", TX + "Base.TransactionVersion"):
        rows += tag(c)
    n = TB + "NetworkAddress.Type"
    rows += [
        ("Type(value)", n, "__init__", "def f(self, value):\n    self._value = value", "the number of a network address kind", dict(TY, what=("fields:_value", "accept"))),
        ("Type.value", n, "value", "def f(self):\n    return self._value", "the number of a network address kind", TY),
        ("Type.int", n, "__int__", "def f(self):\n    return self._value", "the number of a network address kind", TY),
    ]
    bd = PT + "BinaryData"
    other = """
    if isinstance(other, (str, bytes, bytearray)):
        o = BinaryData(value=other, fixed_size=self._fixed_size, strencoding=self._strencoding)
    elif isinstance(other, BinaryData):
        o = other
    else:
        raise TypeError('')
    if self._fixed_size != o._fixed_size:
        raise TypeError('')
    if self._strencoding != o._strencoding:
        raise TypeError('')
"""
    rows += [
        ("BinaryData==", bd, "__eq__", "def f(self, other):" + other + "    return self.value == o.value", "equality of binary data", dict(TY, what=("value", "accept", "raises:TypeError"))),
        ("BinaryData!=", bd, "__ne__", "def f(self, other):" + other + "    return self.value != o.value", "inequality of binary data", dict(TY, what=("value", "accept", "raises:TypeError"))),
        ("BinaryData.hash", bd, "__hash__", "def f(self):\n    return hash(str(self))", "hash of binary data", TY),
        ("BinaryData.len", bd, "__len__", "def f(self):\n    return len(self._value)", "length of binary data", TY),
    ]
    uh = CT + "UnlockHash"
    other = "\n    o = other\n    if isinstance(other, str):\n        o = UnlockHash.from_json(other)\n    elif not isinstance(other, UnlockHash):\n        raise TypeError('')\n"
    kw = dict(TY, opaque_names=("from_json",), what=("value", "accept", "raises:TypeError"))
    rows += [
        ("UnlockHash==", uh, "__eq__", "def f(self, other):" + other + "    return self.type == o.type and self.hash == o.hash", "equality of addresses", kw),
        ("UnlockHash!=", uh, "__ne__", "def f(self, other):" + other + "    return self.type != o.type or self.hash != o.hash", "inequality of addresses", kw),
        ("UnlockHash.hash", uh, "__hash__", "def f(self):\n    return hash(str(self))", "hash of an address", TY),
    ]
    tx = TX + "Base.TransactionBaseClass"
    rows += [
        ("Transaction==", tx, "__eq__", "def f(self, other):\n    if not isinstance(other, TransactionBaseClass):\n        raise TypeError('')\n    return hash(self) == hash(other)", "equality of transactions",
         dict(TY, what=("value", "accept", "raises:TypeError"))),
        ("Transaction.hash", tx, "__hash__", "def f(self):\n    if self._id is None:\n        return hash(tfchain.types.transactions.Base.json_dumps(self.json()))\n    return hash(str(self._id))", "hash of a transaction", dict(TY, opaque_names=("json",), pre=held)),
    ]
    sc = TT + "AtomicSwap.AtomicSwapContract"
    rows += [
        ("AtomicSwapContract==", sc, "__eq__", """
def f(self, other):
    if not isinstance(other, AtomicSwapContract):
        raise TypeError('')
    return self.outputid == other.outputid and self.amount == other.amount and self.unspent == other.unspent and self.condition.json() == other.condition.json()
""", "equality of swap contracts", dict(TY, what=("value", "accept", "raises:TypeError"))),
        ("AtomicSwapContract!=", sc, "__ne__", "def f(self, other):\n    return not self.__eq__(other)", "inequality of swap contracts", TY),
    ]
    table(ctx, rows)


# ------------------------------------------------------------------ P12: views, single additions, constructors

ADD = "def f(self, value):\n    self._miner_fees.append(Currency(value=value))"


def views(ctx):
    """what a transaction, input, output or fulfillment shows of what it holds, and what its operations put in it"""
    kw = dict(TY, init=(IO + "CoinInput", IO + "CoinOutput", IO + "BlockstakeInput", IO + "BlockstakeOutput"))
    rows = []
    tx = TX + "Base.TransactionBaseClass"
    rows += [
        ("Transaction()", tx, "__init__", "def f(self):\n    self._id = None\n    self._height = -1\n    self._unconfirmed = False", "a new transaction", dict(TY, what=("fields:_id,_height,_unconfirmed", "accept"))),
        ("Transaction.id", tx, "id", "def f(self):\n    return str(Hash() if self._id is None else self._id)", "identifier of a transaction", dict(TY, pre=heldid)),
        ("Transaction.id=", tx, "id", "def f(self, id):\n    self._id = None if id is None else Hash(value=id)", "identifier of a transaction", dict(TY, setter=True, what=("fields:_id", "accept"))),
        ("Transaction.unconfirmed", tx, "unconfirmed", "def f(self):\n    return self._unconfirmed", "state of a transaction", TY),
        ("Transaction.unconfirmed=", tx, "unconfirmed", "def f(self, value):\n    if not isinstance(value, bool):\n        raise TypeError('')\n    self._unconfirmed = value", "state of a transaction",
         dict(TY, setter=True, what=("fields:_unconfirmed", "accept", "raises:TypeError"), hook=truth)),
        ("Transaction.height", tx, "height", "def f(self):\n    return self._height", "height of a transaction", TY),
        ("Transaction.height=", tx, "height", """
def f(self, value):
    if not isinstance(value, int) or isinstance(value, bool):
        raise TypeError('')
    if value < 0:
        raise ValueError('')
    self._height = value
""", "height of a transaction", dict(TY, setter=True, what=("fields:_height", "accept", "raises:TypeError,ValueError"))),
        ("Transaction.data", tx, "data", "def f(self):\n    return bytes()", "data of a transaction that has none", TY),
    ]
    for n in ("coin_inputs", "coin_outputs", "blockstake_inputs", "blockstake_outputs", "miner_fees"):
        rows.append(("Transaction." + n, tx, n, "def f(self):\n    return []", "%s of a transaction that has none" % n.replace("_", " "), TY))
    for v in (144, 145, 146, 208, 209, 210):
        rows.append(("V%d.miner_fees" % v, CLS[v], "miner_fees", "def f(self):\n    return [] if self._transaction_fee is None else [self._transaction_fee]", "miner fees", TY))
    for v in (1, 128, 129):
        rows.append(("V%d.miner_fees" % v, CLS[v], "miner_fees", "def f(self):\n    return self._miner_fees", "miner fees", TY))
        rows.append(("V%d.miner_fee_add" % v, CLS[v], "miner_fee_add", ADD, "adding a miner fee", dict(TY, what=("fields:_miner_fees", "accept"))))
    for v in (144, 145, 146, 208, 210):
        rows.append(("V%d.refund_coin_output" % v, CLS[v], "refund_coin_output", "def f(self):\n    return CoinOutput() if self._refund_coin_output is None else self._refund_coin_output", "refund output", TY))
        for a in ("value", "condition", "id"):
            ctx_pair(ctx, "V%d.refund_coin_output_set.%s" % (v, a), CLS[v], "refund_coin_output_set",
                     "def f(self, value, condition, id):\n    self.refund_coin_output_set(value, condition, id=id)\n    return self.coin_outputs[0].%s" % a,
                     "def f(self, value, condition, id):\n    o = CoinOutput()\n    o.value = value\n    o.condition = condition\n    o.id = id\n    return o.%s" % a, "%s of the refund output" % a, **kw)
    for a, b in (("value", "self.value"), ("condition", "ConditionUnlockHash(unlockhash=self.address)")):
        ctx_pair(ctx, "V209.coin_outputs[].%s" % a, CLS[209], "coin_outputs", "def f(self):\n    return [o.%s for o in self.coin_outputs]" % a,
                 "def f(self):\n    o = CoinOutput()\n    o.%s = %s\n    return [o.%s]" % (a, b, a), "%s of the created output" % a, **dict(TY, types={t("a", var("self"), "_coin_output"): IO + "CoinOutput"}))
    for v, n in ((128, "mint_fulfillment_defined"), (129, "mint_fulfillment_defined")):
        rows.append(("V%d.%s" % (v, n), CLS[v], n, "def f(self):\n    return self._mint_fulfillment is not None", "whether a mint fulfillment is there", TY))
    rows.append(("V210.registration_fee=", CLS[210], "registration_fee", "def f(self, txfee):\n    if txfee is not None and Currency(value=txfee) != self._registration_fee:\n        raise ValueError('')",
                 "the fixed registration fee", dict(TY, setter=True, what=("accept", "raises:ValueError"), opaque_names=("__eq__", "__ne__"))))
    for v, n in ((144, "_public_key"), (145, "_parent_public_key"), (210, "_public_key")):
        rows.append(("V%d.signature_add" % v, CLS[v], "signature_add", "def f(self, public_key, signature):\n    if self.%s.unlockhash != public_key.unlockhash:\n        raise ValueError('')\n    self.signature = signature" % n,
                     "a signature is taken for the key it belongs to", dict(TY, opaque_names=("unlockhash",), what=("fields:_signature", "accept", "raises:ValueError"))))
    for c, o, n in ((IO + "CoinInput", IO + "CoinOutput", "from_coin_output"), (IO + "BlockstakeInput", IO + "BlockstakeOutput", "from_blockstake_output")):
        s = c.split(".")[-1]
        ref = "def f(x):\n    if not isinstance(x, %s):\n        raise TypeError('')\n    o = %s()\n    o.parentid = x.id\n    o.fulfillment = tfchain.types.FulfillmentTypes.from_condition(x.condition)\n    o.parent_output = x\n" % (o.split(".")[-1], s)
        for a in ("parentid", "fulfillment", "parent_output"):
            ctx_pair(ctx, "%s.%s.%s" % (s, n, a), None, c + "." + n, "def f(x):\n    return %s.%s(x).%s" % (s, n, a), ref + "    return o.%s" % a, "%s of the input that spends an output" % a,
                     what=("value", "accept", "raises:TypeError"), **dict(kw, opaque_names=("from_condition",)))
    ms = FT + "FulfillmentMultiSignature"
    rows += [
        ("FulfillmentMultiSignature(pairs)", ms, "__init__", "def f(self, pairs=None):\n    self._pairs = []\n    if pairs:\n        for k, s in pairs:\n            self.add_pair(k, s)", "the signatures given to the constructor",
         dict(TY, opaque_names=("add_pair",), what=("fields:_pairs", "accept", "calls:add_pair"))),
        ("FulfillmentMultiSignature.pairs=", ms, "pairs", "def f(self, value):\n    self._pairs = []\n    if value:\n        for p in value:\n            self.add_pair(p.public_key, p.signature)", "the signatures assigned",
         dict(TY, setter=True, opaque_names=("add_pair",), what=("fields:_pairs", "accept", "calls:add_pair"))),
        ("FulfillmentMultiSignature.pairs", ms, "pairs", "def f(self):\n    return self._pairs", "the signatures held", TY),
    ]
    fl = TX + "ThreeBot.BotMonthsAndFlagsData"
    rows.append(("BotMonthsAndFlagsData()", fl, "__init__", """
def f(self, number_of_months, has_addresses, has_names, has_refund):
    if not isinstance(number_of_months, int) or number_of_months < 0 or number_of_months > 24:
        raise TypeError('')
    if not isinstance(has_addresses, bool) or not isinstance(has_names, bool) or not isinstance(has_refund, bool):
        raise TypeError('')
    self._number_of_months = number_of_months
    self._has_addresses = has_addresses
    self._has_names = has_names
    self._has_refund = has_refund
""", "months and flags", dict(TY, what=("fields:_number_of_months,_has_addresses,_has_names,_has_refund", "accept", "raises:TypeError"))))
    for n in ("number_of_months", "has_addresses", "has_names", "has_refund"):
        rows.append(("BotMonthsAndFlagsData." + n, fl, n, "def f(self):\n    return self._%s" % n, "months and flags", TY))
    na = TB + "NetworkAddress"
    rows.append(("NetworkAddress(network_type)", na, "__init__", """
def f(self, address=None, network_type=None):
    self.value = address
    if network_type is not None:
        if not isinstance(network_type, NetworkAddress.Type):
            raise TypeError('')
        if self._type != network_type:
            raise ValueError('')
""", "a network address of an expected kind", dict(TY, what=("fields:_type,_address", "accept", "raises:TypeError,ValueError"))))
    rows.append(("BotName(value)", TB + "BotName", "__init__", "def f(self, value=None):\n    self.value = value", "a name", dict(TY, what=("fields:_value", "accept", "raises:TypeError,ValueError"))))
    bs = PT + "Blockstake"
    rows += [
        ("Blockstake(value)", bs, "__init__", "def f(self, value=0):\n    self.value = value", "a block stake", dict(TY, what=("fields:_value", "accept"))),
        ("Blockstake.value", bs, "value", "def f(self):\n    return self._value", "a block stake", TY),
        ("Blockstake.int", bs, "__int__", "def f(self):\n    return self._value", "a block stake", TY),
        ("Blockstake.value=", bs, "value", """
def f(self, value):
    if value is None:
        self._value = 0
        return
    if isinstance(value, Blockstake):
        self._value = value.value
        return
    if not isinstance(value, (str, int)):
        raise TypeError('')
    v = int(value)
    if v < 0:
        raise TypeError('')
    self._value = v
""", "a block stake", dict(TY, setter=True, what=("fields:_value", "accept", "raises:TypeError"))),
    ]
    sg = FT + "ED25519Signature"
    rows.append(("ED25519Signature(as_array)", sg, "__init__", "def f(self, value=None, as_array=False):\n    super().__init__(value, fixed_size=ED25519Signature.SIZE, strencoding='hex')\n    if not isinstance(as_array, bool):\n"
                 "        raise TypeError('')\n    self._as_array = as_array", "a signature", dict(TY, opaque_names=("__init__",), what=("fields:_as_array", "accept", "raises:TypeError", "calls:__init__"))))
    table(ctx, rows)


def truth(a, b, asm):
    for x, y in ((a, b), (b, a)):
        if x.tag == "call" and x.args[0] is t("b", "bool") and len(x.args[1]) == 1 and x.args[1][0] is y:
            return True
    return None


def heldid(x):
    def step(y):
        if y.tag == "ite" and y.args[0] is y.args[1] and y.args[1].tag == "a" and y.args[1].args[1] == "_id":
            return mk_ite(mk_isnone(y.args[1]), y.args[2], y.args[1])
        return None
    return subst(x, step)


def ctx_pair(ctx, key, cls, name, src, ref, msg, what=("value", "accept"), **kw):
    """a program over the class against the reference for its result"""
    f = ctx.repo.method(cls, name) if cls else ctx.repo.funcs.get(name)
    ctx.need(f is not None, "%s.%s not found" % (cls, name))
    types = kw.pop("types", None)
    r = dict(kw)
    if types:
        r["types"] = types
    if cls:
        r["self_cls"] = cls
    ra = ctx.run(spec(ctx, src, cls), **r)
    rb = ctx.run(spec(ctx, ref, cls), **r)
    compare(ctx, key, f, ra, rb, None, what, None, msg)


# ------------------------------------------------------------------ P13: what every reader makes of a missing, empty or null part

def LST(cls, key, src="data"):
    return "[%s.from_json(x) for x in %s.get('%s') or []]" % (cls, src, key)


def OPT(field, cls, key):
    return "    self.%s = %s.from_json(data['%s']) if '%s' in data else None\n" % (field, cls, key, key)


FEE = OPT("_transaction_fee", "Currency", "txfee")
REF = OPT("_refund_coin_output", "CoinOutput", "refundcoinoutput")
INS = "    self._coin_inputs = %s\n" % LST("CoinInput", "coininputs")
BIN = "    self._data = BinaryData.from_json(data.get('arbitrarydata') or '', strencoding='base64')\n"
NON = "    self._nonce = BinaryData.from_json(data.get('nonce', ''), strencoding='base64')\n"
FEES = "    self._miner_fees = %s\n" % LST("Currency", "minerfees")
FUL = "    self._mint_fulfillment = tfchain.types.FulfillmentTypes.from_json(data.get('mintfulfillment', {}))\n"


def bot(w):
    return """    if '%s' in data:
        d = data['%s']
        self._%s_botid = int(d.get('id') or 0)
        self.%s_signature = d.get('signature') or None
    else:
        self._%s_botid = None
        self._%s_signature = None
""" % (w, w, w, w, w, w)


READ = {
    1: (INS + "    self._coin_outputs = %s\n    self._blockstake_inputs = %s\n    self._blockstake_outputs = %s\n" % (LST("CoinOutput", "coinoutputs"), LST("BlockstakeInput", "blockstakeinputs"), LST("BlockstakeOutput", "blockstakeoutputs"))
        + FEES + BIN, "_coin_inputs,_coin_outputs,_blockstake_inputs,_blockstake_outputs,_miner_fees,_data"),
    128: (NON + "    self._mint_condition = tfchain.types.ConditionTypes.from_json(data.get('mintcondition', {}))\n" + FUL + FEES + BIN, "_nonce,_mint_condition,_mint_fulfillment,_miner_fees,_data"),
    129: (NON + FUL + "    self._coin_outputs = %s\n" % LST("CoinOutput", "coinoutputs") + FEES + BIN, "_nonce,_mint_fulfillment,_coin_outputs,_miner_fees,_data"),
    144: ("    self._addresses = %s\n    self._names = %s\n    self._number_of_months = int(data.get('nrofmonths') or 0)\n" % (LST("NetworkAddress", "addresses"), LST("BotName", "names")) + FEE + INS + REF + """
    if 'identification' not in data or data['identification'] in (None, {}):
        self._public_key = None
        self._signature = None
    else:
        d = data['identification']
        self._public_key = PublicKey.from_json(d['publickey'])
        self.signature = d['signature'] or None
""", "_addresses,_names,_number_of_months,_transaction_fee,_coin_inputs,_refund_coin_output,_public_key,_signature"),
    145: ("    a = data.get('addresses') or {}\n    n = data.get('names') or {}\n    self._botid = int(data.get('id') or 0)\n    self._addresses_to_add = %s\n    self._addresses_to_remove = %s\n    self._names_to_add = %s\n    self._names_to_remove = %s\n"
          "    self._number_of_months = int(data.get('nrofmonths') or 0)\n" % (LST("NetworkAddress", "add", "a"), LST("NetworkAddress", "remove", "a"), LST("BotName", "add", "n"), LST("BotName", "remove", "n")) + FEE + INS + REF
          + "    self.signature = data.get('signature') or None\n", "_botid,_addresses_to_add,_addresses_to_remove,_names_to_add,_names_to_remove,_number_of_months,_transaction_fee,_coin_inputs,_refund_coin_output,_signature"),
    146: (bot("sender") + bot("receiver") + "    self._names = %s\n" % LST("BotName", "names") + FEE + INS + REF,
          "_sender_botid,_sender_signature,_receiver_botid,_receiver_signature,_names,_transaction_fee,_coin_inputs,_refund_coin_output"),
    208: (OPT("_address", "ERC20Address", "address") + OPT("_value", "Currency", "value") + FEE + INS + REF, "_address,_value,_transaction_fee,_coin_inputs,_refund_coin_output"),
    209: (OPT("_address", "UnlockHash", "address") + OPT("_value", "Currency", "value") + FEE + OPT("_blockid", "ERC20Hash", "blockid") + OPT("_transactionid", "ERC20Hash", "txid"), "_address,_value,_transaction_fee,_blockid,_transactionid"),
    210: (OPT("_public_key", "PublicKey", "pubkey") + "    self.signature = (data['signature'] or None) if 'signature' in data else None\n    self.registration_fee = Currency.from_json(data['regfee']) if 'regfee' in data else None\n" + FEE + INS + REF,
          "_public_key,_signature,_transaction_fee,_coin_inputs,_refund_coin_output"),
}


def readers(ctx):
    rows = []
    for v, (body, fields) in sorted(READ.items()):
        rows.append(("V%d.reads" % v, CLS[v], "_from_json_data_object", "def f(self, data):\n" + body, "read from JSON",
                     dict(TY, opaque_names=("from_json", "__eq__", "__ne__"), what=("fields:" + fields, "accept"), pre=empties)))
    table(ctx, rows)


def empties(x):
    """what a dictionary gives for a key: its value, or the default where it has none; only its truth matters in a condition"""
    def get(y):
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] == "get" and 1 <= len(y.args[1]) <= 2 and not y.args[2] and y.args[1][0].tag == "c":
            d = subst(y.args[0].args[0], get)
            k = y.args[1][0]
            return mk_ite(t("in", k, d), t("i", d, k), y.args[1][1] if len(y.args[1]) == 2 else NONE)
        return None

    def none(c):
        if c.tag == "ite":
            return mk_or(mk_and(c.args[0], none(c.args[1])), mk_and(mk_not(c.args[0]), none(c.args[2])))
        return mk_isnone(c)

    def cond(c):
        if c.tag in ("and", "or"):
            return (mk_and if c.tag == "and" else mk_or)(*[cond(z) for z in c.args[0]])
        if c.tag == "not":
            return mk_not(cond(c.args[0]))
        if c.tag == "ite":
            return mk_or(mk_and(cond(c.args[0]), cond(c.args[1])), mk_and(mk_not(cond(c.args[0])), cond(c.args[2])))
        if c.tag == "is" and c.args[1] is NONE:
            return none(subst(c.args[0], step))
        if c.tag in ("list", "dict", "tuple") and not c.args[0]:
            return FALSE
        if c.tag == "c":
            return TRUE if cval(c) else FALSE
        return subst(c, step)

    def step(y):
        if y.tag == "ite":
            c = cond(y.args[0])
            return mk_ite(c, subst(y.args[1], step), subst(y.args[2], step))
        if y.tag == "map" and y.args[2] is TRUE:
            return gated(y)
        if y.tag == "call" and y.args[1] and (y.args[0] is t("b", "int") or y.args[0].tag == "bm" and y.args[0].args[0].endswith(".BinaryData.from_json")):
            return lift(y.args[0], subst(y.args[1][0], step), y.args[1][1:], y.args[2])
        return None

    def lift(f, a, rest, kws):
        if a.tag == "ite":
            return mk_ite(a.args[0], lift(f, a.args[1], rest, kws), lift(f, a.args[2], rest, kws))
        if f is t("b", "int") and a.tag == "c" and isinstance(cval(a), int):
            return a
        if f.tag == "bm" and a is const(""):   # nothing, either way
            a = NONE
        return t("call", f, (a,) + tuple(rest), kws)

    def gated(y):
        it = subst(y.args[1], step)
        return fuse(subst(y.args[0], lambda z: t("elem", it) if z is t("elem", y.args[1]) else None), simplify(it, TRUE))
    return subst(subst(x, get), step)
