"""P09 wire layout of transactions, P10 what a signature covers, P11 identifiers."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t

TX = "tfchain.types.transactions."
BASE = TX + "Base.TransactionBaseClass"
V1 = TX + "Standard.TransactionV1"
CLS = {
    1: V1, 128: TX + "Minting.TransactionV128", 129: TX + "Minting.TransactionV129",
    144: TX + "ThreeBot.TransactionV144", 145: TX + "ThreeBot.TransactionV145", 146: TX + "ThreeBot.TransactionV146",
    208: TX + "ERC20.TransactionV208", 209: TX + "ERC20.TransactionV209", 210: TX + "ERC20.TransactionV210",
}
MAF = TX + "ThreeBot.BotMonthsAndFlagsData"
SPECIFIER = {128: b"minter defin tx\0", 129: b"coin mint tx\0\0\0\0", 144: b"bot register tx\0", 145: b"bot recupdate tx", 146: b"bot nametrans tx",
             208: b"erc20 convert tx", 209: b"erc20 coingen tx", 210: b"erc20 addrreg tx"}

REFUND = """
    if self._refund_coin_output is None:
        w.u8(0)
    else:
        w.u8(1)
        w.obj(self._refund_coin_output)
"""
INPUT_IDS = """
    w.u64(len(self.coin_inputs))
    for ci in self.coin_inputs:
        w.obj(ci.parentid)
"""

# ---- binary form of the data part of every version
DATA = {
    1: """
def f(self):
    w = encoder_sia_get()
    if not self._legacy:
        w.seq(self.coin_inputs)
        w.seq(self.coin_outputs)
        w.seq(self.blockstake_inputs)
        w.seq(self.blockstake_outputs)
        w.seq(self.miner_fees)
        w.obj(self.data)
        return w.data
    w.u64(len(self.coin_inputs))
    for ci in self.coin_inputs:
        w.obj(ci.parentid)
        w.u8(1)
        d = encoder_sia_get()
        d.obj(ci.fulfillment.public_key)
        w.slice(d.data)
        w.obj(ci.fulfillment.signature)
    w.u64(len(self.coin_outputs))
    for co in self.coin_outputs:
        w.obj(co.value)
        w.obj(co.condition.unlockhash)
    w.u64(len(self.blockstake_inputs))
    for ci in self.blockstake_inputs:
        w.obj(ci.parentid)
        w.u8(1)
        d = encoder_sia_get()
        d.obj(ci.fulfillment.public_key)
        w.slice(d.data)
        w.obj(ci.fulfillment.signature)
    w.u64(len(self.blockstake_outputs))
    for co in self.blockstake_outputs:
        w.obj(co.value)
        w.obj(co.condition.unlockhash)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    128: """
def f(self):
    w = encoder_sia_get()
    w.array(self._nonce.value)
    w.obj(self.mint_fulfillment)
    w.obj(self.mint_condition)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    129: """
def f(self):
    w = encoder_sia_get()
    w.array(self._nonce.value)
    w.obj(self.mint_fulfillment)
    w.seq(self.coin_outputs)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    144: """
def f(self):
    w = encoder_rivine_get()
    w.obj(BotMonthsAndFlagsData(number_of_months=self.number_of_months, has_addresses=len(self.addresses) > 0, has_names=len(self.names) > 0,
                                has_refund=self._refund_coin_output is not None))
    w.u8(len(self.addresses) | (len(self.names) << 4))
    w.array(self.addresses)
    w.array(self.names)
    w.obj(self.transaction_fee)
    w.seq(self.coin_inputs)
    if self._refund_coin_output is not None:
        w.obj(self._refund_coin_output)
    w.obj(self.public_key)
    w.obj(self.signature)
    return w.data
""",
    145: """
def f(self):
    w = encoder_rivine_get()
    w.u32(self.botid)
    w.obj(BotMonthsAndFlagsData(number_of_months=self.number_of_months, has_addresses=len(self.addresses_to_add) > 0 or len(self.addresses_to_remove) > 0,
                                has_names=len(self.names_to_add) > 0 or len(self.names_to_remove) > 0, has_refund=self._refund_coin_output is not None))
    if len(self.addresses_to_add) > 0 or len(self.addresses_to_remove) > 0:
        w.u8(len(self.addresses_to_add) | (len(self.addresses_to_remove) << 4))
        w.array(self.addresses_to_add)
        w.array(self.addresses_to_remove)
    if len(self.names_to_add) > 0 or len(self.names_to_remove) > 0:
        w.u8(len(self.names_to_add) | (len(self.names_to_remove) << 4))
        w.array(self.names_to_add)
        w.array(self.names_to_remove)
    w.obj(self.transaction_fee)
    w.seq(self.coin_inputs)
    if self._refund_coin_output is not None:
        w.obj(self._refund_coin_output)
    w.obj(self.signature)
    return w.data
""",
    146: """
def f(self):
    w = encoder_rivine_get()
    w.u32(self.sender_botid)
    w.obj(self.sender_signature)
    w.u32(self.receiver_botid)
    w.obj(self.receiver_signature)
    if self._refund_coin_output is None:
        w.u8(len(self.names))
    else:
        w.u8(len(self.names) | 16)
    w.array(self.names)
    w.obj(self.transaction_fee)
    w.seq(self.coin_inputs)
    if self._refund_coin_output is not None:
        w.obj(self._refund_coin_output)
    return w.data
""",
    208: """
def f(self):
    w = encoder_rivine_get()
    w.obj(self.address)
    w.obj(self.value)
    w.obj(self.transaction_fee)
    w.seq(self.coin_inputs)
""" + REFUND + "    return w.data\n",
    209: """
def f(self):
    w = encoder_rivine_get()
    w.obj(self.address)
    w.obj(self.value)
    w.obj(self.transaction_fee)
    w.obj(self.blockid)
    w.obj(self.transactionid)
    return w.data
""",
    210: """
def f(self):
    w = encoder_rivine_get()
    w.obj(self.public_key)
    w.obj(self.signature)
    w.obj(self.registration_fee)
    w.obj(self.transaction_fee)
    w.seq(self.coin_inputs)
""" + REFUND + "    return w.data\n",
}

# ---- what is hashed for a signature
SIGHASH = {
    1: """
def f(self, *extra):
    w = encoder_sia_get()
    if self._legacy:
        w.all(*extra)
        for ci in self.coin_inputs:
            w.obj(ci.parentid)
            w.obj(ci.fulfillment.public_key.unlockhash)
        w.u64(len(self.coin_outputs))
        for co in self.coin_outputs:
            w.obj(co.value)
            w.obj(co.condition.unlockhash)
        for ci in self.blockstake_inputs:
            w.obj(ci.parentid)
            w.obj(ci.fulfillment.public_key.unlockhash)
        w.u64(len(self.blockstake_outputs))
        for co in self.blockstake_outputs:
            w.obj(co.value)
            w.obj(co.condition.unlockhash)
        w.seq(self.miner_fees)
        w.obj(self.data)
        return w.data
    w.u8(1)
    w.all(*extra)
    w.u64(len(self.coin_inputs))
    for ci in self.coin_inputs:
        w.obj(ci.parentid)
    w.seq(self.coin_outputs)
    w.u64(len(self.blockstake_inputs))
    for ci in self.blockstake_inputs:
        w.obj(ci.parentid)
    w.seq(self.blockstake_outputs)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    128: """
def f(self, *extra):
    w = encoder_sia_get()
    w.u8(128)
    w.array(b'minter defin tx\\0')
    w.array(self._nonce.value)
    w.all(*extra)
    w.obj(self.mint_condition)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    129: """
def f(self, *extra):
    w = encoder_sia_get()
    w.u8(129)
    w.array(b'coin mint tx\\0\\0\\0\\0')
    w.array(self._nonce.value)
    w.all(*extra)
    w.seq(self.coin_outputs)
    w.seq(self.miner_fees)
    w.obj(self.data)
    return w.data
""",
    144: """
def f(self, *extra):
    w = encoder_rivine_get()
    w.u8(144)
    w.array(b'bot register tx\\0')
    w.all(*extra)
    w.seq(self.addresses)
    w.seq(self.names)
    w.u8(self.number_of_months)
""" + INPUT_IDS + "    w.obj(self.transaction_fee)\n" + REFUND + "    w.obj(self.public_key)\n    return w.data\n",
    145: """
def f(self, *extra):
    w = encoder_rivine_get()
    w.u8(145)
    w.array(b'bot recupdate tx')
    w.u32(self.botid)
    w.all(*extra)
    w.seq(self.addresses_to_add)
    w.seq(self.addresses_to_remove)
    w.seq(self.names_to_add)
    w.seq(self.names_to_remove)
    w.u8(self.number_of_months)
""" + INPUT_IDS + "    w.obj(self.transaction_fee)\n" + REFUND + "    return w.data\n",
    146: """
def f(self, *extra):
    w = encoder_rivine_get()
    w.u8(146)
    w.array(b'bot nametrans tx')
    w.u32(self.sender_botid)
    w.u32(self.receiver_botid)
    w.all(*extra)
    w.seq(self.names)
""" + INPUT_IDS + "    w.obj(self.transaction_fee)\n" + REFUND + "    return w.data\n",
    208: """
def f(self, *extra):
    w = encoder_rivine_get()
    w.u8(208)
    w.array(b'erc20 convert tx')
    w.obj(self.address)
    w.obj(self.value)
    w.all(*extra)
""" + INPUT_IDS + "    w.obj(self.transaction_fee)\n" + REFUND + "    return w.data\n",
    209: """
def f(self, *extra):
    w = encoder_sia_get()
    w.u8(209)
    w.array(b'erc20 coingen tx')
    w.all(*extra)
    w.obj(self.address)
    w.obj(self.value)
    w.obj(self.transaction_fee)
    w.obj(self.blockid)
    w.obj(self.transactionid)
    return w.data
""",
    210: """
def f(self, *extra):
    w = encoder_rivine_get()
    w.u8(210)
    w.array(b'erc20 addrreg tx')
    w.obj(self.public_key)
    w.all(*extra)
""" + INPUT_IDS + "    w.obj(self.registration_fee)\n    w.obj(self.transaction_fee)\n" + REFUND + "    return w.data\n",
}


def txclasses(ctx):
    r = ctx.repo
    have = [c for c in r.subclasses(BASE) if c != BASE and not _abstract(r, c)]
    ctx.need(set(CLS.values()) <= set(r.classes), "transaction classes vanished: %s" % sorted(set(CLS.values()) - set(r.classes)))
    for c in have:
        ctx.ob("%s.known" % c.split(".")[-1], c in CLS.values(), r.classes[c].module.rel, "transaction type without a protocol layout")
    return CLS


def _abstract(r, c):
    return r.method(c, "version") is None or r.method(c, "version").cls.qual == BASE


WHOLE = {
    1: """
def f(self):
    if self._legacy:
        return bytes([0]) + self._binary_encode_data()
    w = encoder_sia_get()
    w.u8(1)
    w.slice(self._binary_encode_data())
    return w.data
"""}


def p09(ctx):
    r = ctx.repo
    for v, c in txclasses(ctx).items():
        n = "V%d" % v
        wire_rule(ctx, n + ".data", r.method(c, "_binary_encode_data"), DATA[v], c, enc_param=False, init=(MAF,))
        wire_rule(ctx, n + ".whole", r.method(c, "binary_encode"), WHOLE.get(v, "def f(self):\n    return bytes([%d]) + self._binary_encode_data()" % v), c, enc_param=False,
                  opaque_names=("_binary_encode_data",))
        g = r.method(c, "version")
        res = ctx.run(g, modules=("tfchain.types",), self_cls=c)
        x = strip(res.val)
        x = class_const(ctx, x)
        ok = res.pc is TRUE and x.tag == "new" and x.args[0].endswith(".TransactionVersion") and x.args[2] and x.args[2][0] is const(v)
        ctx.ob(n + ".version", ok, g.where, "version is %s, the protocol's is %d" % (short(x), v))
    c = TX + "Base.TransactionVersion"
    result_rule(ctx, "version.int", r.method(c, "__int__"), "def f(self):\n    return self._value", c, msg="number of a version")
    for m in ("value",):
        result_rule(ctx, "version.value", r.method(c, m), "def f(self):\n    return self._value", c, msg="value of a version")
    result_rule(ctx, "version.init", r.method(c, "__init__"), """
def f(self, value):
    if isinstance(value, TransactionVersion):
        self._value = value.value
    else:
        self._value = value
""", c, what=("accept", "fields:_value"), msg="version made from a number or version")
    result_rule(ctx, "version.eq", r.method(c, "__eq__"), """
def f(self, other):
    if isinstance(other, TransactionVersion):
        return self._value == other.value
    return self._value == other
""", c, msg="equality of versions")
    for name, v in FRESH.items():
        f = r.funcs.get(TX + "Transactions." + name)
        ctx.need(f is not None, "Transactions.%s not found" % name)
        res = ctx.run(f, modules=("tfchain.types",), opaque_names=())
        x = strip(res.val)
        want = txclasses(ctx)[v]
        ok = res.pc is TRUE and x.tag == "new" and x.args[0] == want
        ctx.ob("new.%d" % v, ok, f.where, "a new transaction of version %d is %s, must be a fresh %s" % (v, short(x), want))


FRESH = {"new": 1, "mint_definition_new": 128, "mint_coin_creation_new": 129, "threebot_registration_new": 144, "threebot_record_update_new": 145, "threebot_name_transfer_new": 146,
         "erc20_convert_new": 208, "erc20_coin_creation_new": 209, "erc20_address_registration_new": 210}


def p10(ctx):
    r = ctx.repo
    for v, c in txclasses(ctx).items():
        n = "V%d" % v
        wire_rule(ctx, n + ".input", r.method(c, "_signature_hash_input_get"), SIGHASH[v], c, enc_param=False)
        wire_rule(ctx, n + ".hash", r.method(c, "signature_hash_get"),
                  "def f(self, *extra):\n    return hashlib.blake2b(self._signature_hash_input_get(*extra), digest_size=32).digest()", c, enc_param=False,
                  opaque_names=("_signature_hash_input_get",))
    c = TX + "Base.InputSignatureHashFactory"
    result_rule(ctx, "factory.keeps", r.method(c, "__init__"), """
def f(self, txn, *extra):
    if not isinstance(txn, TransactionBaseClass):
        raise TypeError('')
    self._txn = txn
    self._extra_objects = extra
""", c, what=("accept", "fields:_txn,_extra_objects"), msg="input hash factory")
    result_rule(ctx, "factory.hash", r.method(c, "signature_hash_new"), """
def f(self, *extra):
    return self._txn.signature_hash_get(*self._extra_objects, *extra)
""", c, msg="hash of an input", opaque_names=("signature_hash_get",), hook=_starhook)
    # every input is hashed with its own index
    ctx_requests(ctx)


def _starhook(a, b, asm):
    if a.tag == "star" or b.tag == "star":
        return None
    if isinstance(a, T) and a.tag == "call" and b.tag == "call" and a.args[0] is b.args[0]:
        fa, fb = _flatstar(a.args[1]), _flatstar(b.args[1])
        if fa != a.args[1] or fb != b.args[1]:
            return fa == fb
    return None


def _flatstar(xs):
    out = []
    for x in xs:
        if x.tag == "star":
            out += _spread(x.args[0])
        else:
            out.append(x)
    return tuple(out)


def _spread(y):
    y = strip(y)
    if y.tag in ("list", "tuple"):
        return list(_flatstar(y.args[0]))
    if y.tag == "op" and y.args[0] == "+":
        return _spread(y.args[1]) + _spread(y.args[2])
    return [t("star", y)]


def ctx_requests(ctx):
    r = ctx.repo
    sp = """
def f(self):
    out = []
    for i, ci in enumerate(self.coin_inputs):
        out += ci.signature_requests_new(input_hash_func=InputSignatureHashFactory(self, i).signature_hash_new)
    for i, ci in enumerate(self.blockstake_inputs):
        out += ci.signature_requests_new(input_hash_func=InputSignatureHashFactory(self, i).signature_hash_new)
    return out + self._extra_signature_requests_new()
"""
    for v, c in CLS.items():
        result_rule(ctx, "V%d.requests" % v, r.method(c, "signature_requests_new"), sp, c, msg="signature requests", opaque_names=("signature_requests_new", "_extra_signature_requests_new"))


ID_INPUT = {v: "def f(self):\n    return %r + self._binary_encode_data()" % s for v, s in SPECIFIER.items()}
ID_INPUT[1] = "def f(self):\n    return self.binary_encode()"


def digests(ctx):
    """the hash helpers are blake2b of the bytes given, with the size asked for (32 by default)"""
    r = ctx.repo
    J = "tfchain.internal.jsutils."
    for n, src in (("blake2", "def f(s, digest_size=32):\n    return hashlib.blake2b(s, digest_size=digest_size).digest()"),
                   ("blake2_string", "def f(s, digest_size=32):\n    return hashlib.blake2b(s, digest_size=digest_size).digest().hex()")):
        f = r.fn(J + n)
        sp = spec(ctx, src)
        ra, rb, x, _ = pair(ctx, f, sp, modules=("tfchain.internal",), inline=(J + "blake2",))
        s = var(f.node.args.args[0].arg)
        text = t("isinst", s, "b:str")
        nottext = mk_not(next((y for y in walk(ra.val) if y.tag == "isinst" and y.args[0] is s), FALSE))
        eq = Eq(_dig)
        ctx.ob("digest.%s" % n, ra.pc is TRUE and eq.same(simplify(ra.val, nottext), rb.val, nottext), f.where, lambda: "%s is %s" % (n, short(ra.val)))
        d = f.node.args.defaults
        ctx.ob("digest.%s.size" % n, len(d) == 1 and getattr(d[0], "value", None) == 32, f.where, "default digest size")


def _dig(a, b, asm):
    x, y = a, b
    if a.tag == "call" and a.args[0].tag == "a" and a.args[0].args[1] == "hexdigest" and b.tag == "call" and b.args[0].tag == "a" and b.args[0].args[1] == "hex":
        x, y = t("call", attr(a.args[0].args[0], "digest"), (), ()), b.args[0].args[0]
    dx, dy = digest_of(x), digest_of(y)
    if dx is not None and dy is not None:
        return dx == dy
    return None


def p11(ctx):
    r = ctx.repo
    digests(ctx)
    for v, c in txclasses(ctx).items():
        n = "V%d" % v
        wire_rule(ctx, n + ".id-input", r.method(c, "_id_input_compute"), ID_INPUT[v], c, enc_param=False, opaque_names=("binary_encode", "_binary_encode_data"))
        for m, seq, spec_c, spec_l in (("coin_outputid_new", "coin_outputs", b"coin output\0\0\0\0\0", b"coin output\0\0\0\0"),
                                       ("blockstake_outputid_new", "blockstake_outputs", b"blstake output\0\0", b"blstake output\0")):
            f = r.method(c, m)
            src = """
def f(self, index):
    if index < 0 or index >= len(self.%s):
        raise ValueError('')
    w = encoder_sia_get()
    w.array(%s)
    w.array(self._id_input_compute())
    w.u64(index)
    return Hash(value=hashlib.blake2b(w.data, digest_size=32).digest())
""" % (seq, repr(spec_c) if v != 1 else "(%r if self._legacy else %r)" % (spec_l, spec_c))
            wire_rule(ctx, "%s.%s" % (n, m), f, src, c, enc_param=False, opaque_names=("_id_input_compute",))
            result_rule(ctx, "%s.%s.range" % (n, m), f, src, c, what=("accept",), opaque_names=("_id_input_compute",) + ENC_OPAQUE, msg=m)
