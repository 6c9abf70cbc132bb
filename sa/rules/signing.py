"""P17: signature requests; P18: when something counts as fulfilled."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .jsonfmt import TT, CT, FT, CR, PT, IO, TB, E20
from .table import table, find
from .txlayout import CLS, TX

MOD = dict(modules=(TT[:-1],))
ALL = ("value", "accept", "raises:TypeError", "raises:ValueError")
OP = ("unwrap", "unlockhash", "from_json", "type", "__str__", "__eq__", "__ne__")
BT = TX + "ThreeBot."


def p17(ctx):
    A = dict(MOD, what=ALL, opaque_names=OP)
    R = dict(MOD, what=ALL, opaque_names=OP + ("public_key", "input_hash_func"))
    SR = FT + "SignatureRequest"
    rows = [
        ("request.init", SR, "__init__", """
def f(self, unlockhash, input_hash_gen, callback):
    if not isinstance(unlockhash, UnlockHash) or not callable(input_hash_gen) or not isinstance(callback, SignatureCallbackBase):
        raise TypeError('')
    self._unlockhash = unlockhash
    self._input_hash_gen = input_hash_gen
    self._callback = callback
    self._signed = False
""", "new signature request", dict(MOD, what=("accept", "fields:_unlockhash,_input_hash_gen,_callback,_signed", "raises:TypeError"))),
        ("request.fulfilled", SR, "fulfilled", "def f(self):\n    return self._signed", "request already fulfilled", A),
        ("request.address", SR, "wallet_address", "def f(self):\n    return str(self._unlockhash)", "address asked to sign", A),
        ("request.hash", SR, "input_hash_new", """
def f(self, public_key):
    h = self._input_hash_gen(public_key)
    if isinstance(h, (str, bytearray, bytes)):
        return Hash(value=h)
    if not isinstance(h, Hash):
        raise TypeError('')
    return h
""", "hash to be signed", dict(A, what=("value", "accept", "raises:TypeError"))),
        ("request.fulfill", SR, "signature_fulfill", """
def f(self, public_key, signature):
    if self._signed:
        raise tfchain.errors.DoubleSignError('')
    if not isinstance(public_key, PublicKey):
        raise TypeError('')
    if self._unlockhash.type != UnlockHashType.NIL and str(self._unlockhash) != str(public_key.unlockhash):
        raise ValueError('')
    self._callback.signature_add(public_key=public_key, signature=signature)
    self._signed = True
""", "giving a signature", dict(MOD, opaque_names=OP, what=("accept", "fields:_signed,_unlockhash,_callback,_input_hash_gen", "calls:signature_add", "raises:TypeError", "raises:ValueError",
                                                         "raises:DoubleSignError"))),
        ("single.requests", FT + "FulfillmentSingleSignature", "signature_requests_new", """
def f(self, input_hash_func, parent_condition):
    if not callable(input_hash_func):
        raise TypeError('')
    c = parent_condition.unwrap()
    if not isinstance(c, (ConditionNil, ConditionUnlockHash)):
        raise TypeError('')
    u = c.unlockhash
    if self._signature and (u.type == UnlockHashType.NIL or str(u) == str(self.public_key.unlockhash)):
        return []
    return [SignatureRequest(unlockhash=u, input_hash_gen=lambda public_key: input_hash_func(), callback=self)]
""", "requests of a single signature", A),
        ("multi.requests", FT + "FulfillmentMultiSignature", "signature_requests_new", """
def f(self, input_hash_func, parent_condition):
    if not callable(input_hash_func):
        raise TypeError('')
    c = parent_condition.unwrap()
    if not isinstance(c, ConditionMultiSignature):
        raise TypeError('')
    signed = [str(pair.public_key.unlockhash) for pair in self._pairs]
    out = []
    for u in c.unlockhashes:
        if str(u) not in signed:
            out.append(SignatureRequest(unlockhash=u, input_hash_gen=lambda public_key: input_hash_func(public_key), callback=self))
    return out
""", "requests of a multi-signature", A),
        ("swap.requests", FT + "FulfillmentAtomicSwap", "signature_requests_new", """
def f(self, input_hash_func, parent_condition):
    if not callable(input_hash_func):
        raise TypeError('')
    if not isinstance(parent_condition, ConditionAtomicSwap):
        raise TypeError('')
    me = str(self.public_key.unlockhash)
    def gen(public_key):
        if self._secret is not None:
            return input_hash_func(public_key, self.secret)
        return input_hash_func(public_key)
    out = []
    for u in [parent_condition.sender, parent_condition.receiver]:
        if str(u) != me:
            out.append(SignatureRequest(unlockhash=u, input_hash_gen=gen, callback=self))
    return out
""", "requests of an atomic swap", A),
        ("multi.add", FT + "FulfillmentMultiSignature", "add_pair", """
def f(self, public_key, signature):
    k = str(public_key)
    for p in self._pairs:
        if str(p.public_key) == k:
            raise ValueError('')
    self._pairs.append(PublicKeySignaturePair(public_key=public_key, signature=signature))
""", "signature added to a multi-signature", dict(MOD, opaque_names=OP + ("public_key",), what=("accept", "fields:_pairs", "raises:ValueError"))),
        ("factory.init", TX + "Base.InputSignatureHashFactory", "__init__", """
def f(self, txn, *extra):
    if not isinstance(txn, TransactionBaseClass):
        raise TypeError('')
    self._txn = txn
    self._extra_objects = extra
""", "signature hash factory", dict(MOD, what=("accept", "fields:_txn,_extra_objects", "raises:TypeError"))),
        ("factory.hash", TX + "Base.InputSignatureHashFactory", "signature_hash_new", """
def f(self, *extra):
    return self._txn.signature_hash_get(*(list(self._extra_objects) + list(extra)))
""", "signature hash factory", dict(MOD, opaque_names=("signature_hash_get",))),
    ]
    for c in ("CoinInput", "BlockstakeInput"):
        rows.append((c + ".requests", IO + c, "signature_requests_new", """
def f(self, input_hash_func):
    if self._parent_output is None:
        return []
    return self._fulfillment.signature_requests_new(input_hash_func=input_hash_func, parent_condition=self._parent_output.condition)
""", "requests of an input", dict(A, opaque_names=OP + ("condition", "signature_requests_new"))))
    for n, store in (("FulfillmentSingleSignature", "signature"), ("FulfillmentAtomicSwap", "signature")):
        rows.append((n + ".add", FT + n, "signature_add", """
def f(self, public_key, signature):
    self.public_key = public_key
    self.signature = signature
""", "signature added", dict(MOD, opaque_names=OP, what=("accept", "fields:_pub_key,_signature"))))
    for v, key in ((144, "_public_key"), (145, "_parent_public_key"), (210, "_public_key")):
        if v not in CLS:
            continue
        c = CLS[v]
        rows.append(("v%d.add" % v, c, "signature_add", """
def f(self, public_key, signature):
    if self.%s.unlockhash != public_key.unlockhash:
        raise ValueError('')
    self.signature = signature
""" % key, "signature added", dict(MOD, opaque_names=OP, what=("accept", "fields:_signature," + key, "raises:ValueError"))))
        rows.append(("v%d.requests" % v, c, "_extra_signature_requests_new", """
def f(self):
    if self.%s is None or self._signature is not None:
        return []
    h = InputSignatureHashFactory(self, %s).signature_hash_new
    return [SignatureRequest(unlockhash=self.%s.unlockhash, input_hash_gen=lambda public_key: h(), callback=self)]
""" % (key, "BotTransactionBaseClass.SPECIFIER_SENDER" if v != 210 else "TransactionV210.SPECIFIER_REGISTRATION_SIGNATURE", key), "requests of the transaction", A))
    for v in (128, 129):
        rows.append(("v%d.requests" % v, CLS[v], "_extra_signature_requests_new", """
def f(self):
    if self._parent_mint_condition is None:
        return []
    return self._mint_fulfillment.signature_requests_new(input_hash_func=self.signature_hash_get, parent_condition=self._parent_mint_condition)
""", "requests of the transaction", dict(A, opaque_names=OP + ("signature_requests_new",))))
    rows += [
        ("v146.add", CLS[146], "signature_add", """
def f(self, public_key, signature):
    u = public_key.unlockhash
    if u == self.sender_parent_public_key.unlockhash:
        self.sender_signature = signature
    elif u == self.receiver_parent_public_key.unlockhash:
        self.receiver_signature = signature
    else:
        raise ValueError('')
""", "signature added", dict(MOD, opaque_names=OP, what=("accept", "fields:_sender_signature,_receiver_signature", "raises:ValueError"))),
        ("v146.requests", CLS[146], "_extra_signature_requests_new", """
def f(self):
    out = []
    if self._sender_parent_public_key is not None and self._sender_signature is None:
        s = InputSignatureHashFactory(self, BotTransactionBaseClass.SPECIFIER_SENDER)
        out.append(SignatureRequest(unlockhash=self._sender_parent_public_key.unlockhash, input_hash_gen=lambda public_key: s.signature_hash_new(), callback=self))
    if self._receiver_parent_public_key is not None and self._receiver_signature is None:
        r = InputSignatureHashFactory(self, BotTransactionBaseClass.SPECIFIER_RECEIVER)
        out.append(SignatureRequest(unlockhash=self._receiver_parent_public_key.unlockhash, input_hash_gen=lambda public_key: r.signature_hash_new(), callback=self))
    return out
""", "requests of the transaction", A),
        ("tx.requests", TX + "Base.TransactionBaseClass", "signature_requests_new", """
def f(self):
    out = []
    for i, ci in enumerate(self.coin_inputs):
        out += ci.signature_requests_new(input_hash_func=InputSignatureHashFactory(self, i).signature_hash_new)
    for i, bi in enumerate(self.blockstake_inputs):
        out += bi.signature_requests_new(input_hash_func=InputSignatureHashFactory(self, i).signature_hash_new)
    return out + self._extra_signature_requests_new()
""", "requests of a transaction", dict(A, opaque_names=OP + ("signature_requests_new", "coin_inputs", "blockstake_inputs", "_extra_signature_requests_new"))),
    ]
    base = TX + "Base.TransactionBaseClass"
    for v, c in CLS.items():
        if v in (128, 129, 144, 145, 146, 210):
            continue
        rows.append(("v%d.requests" % v, c, "_extra_signature_requests_new", "def f(self):\n    return []", "requests of the transaction", A))
    table(ctx, rows)
    r = ctx.repo
    # giving a signature to a multi-signature fulfillment is adding a pair
    m = r.method(FT + "FulfillmentMultiSignature", "signature_add")
    ctx.ob("multi.signature_add", m is not None and m.node.name in ("add_pair", "signature_add"), m.where if m else FT, "signature_add of a multi-signature is not the addition of a pair")
    # every class that can receive signatures is one of those decided above
    known = {FT + "FulfillmentSingleSignature", FT + "FulfillmentMultiSignature", FT + "FulfillmentAtomicSwap"} | {CLS[v] for v in (144, 145, 146, 210) if v in CLS}
    for q in sorted(r.classes):
        if "signature_add" in r.classes[q].methods and q != FT + "SignatureCallbackBase":
            ctx.ob("receiver." + q.split(".")[-1], q in known, r.classes[q].module.rel, "signatures are received by a class without a decided rule")
        for n in ("signature_requests_new", "_extra_signature_requests_new"):
            if n in r.classes[q].methods and q not in known and q not in (base, FT + "FulfillmentBaseClass", IO + "CoinInput", IO + "BlockstakeInput", CLS[128], CLS[129]):
                ctx.ob("requester." + q.split(".")[-1], False, r.classes[q].module.rel, "signatures are requested by a class without a decided rule")


def p18(ctx):
    A = dict(MOD, what=("value", "accept", "raises:TypeError"), opaque_names=OP + ("is_fulfilled", "condition"))
    rows = []
    for c in ("CoinInput", "BlockstakeInput"):
        rows.append((c, IO + c, "is_fulfilled", """
def f(self):
    if self._parent_output is None:
        return False
    return self._fulfillment.is_fulfilled(self._parent_output.condition)
""", "input fulfilled", A))
    rows += [
        ("single", FT + "FulfillmentSingleSignature", "is_fulfilled", """
def f(self, parent_condition):
    if not isinstance(parent_condition.unwrap(), (ConditionNil, ConditionUnlockHash)):
        raise TypeError('')
    return bool(self._signature)
""", "single signature fulfilled", A),
        ("single.short", FT + "FulfillmentSingleSignature", "fulfilled", "def f(self):\n    return bool(self._signature)", "single signature fulfilled", A),
        ("multi", FT + "FulfillmentMultiSignature", "is_fulfilled", """
def f(self, parent_condition):
    c = parent_condition.unwrap()
    if not isinstance(c, ConditionMultiSignature):
        raise TypeError('')
    return len([p for p in self._pairs if p.signature]) >= c.required_signatures
""", "multi-signature fulfilled", dict(A, opaque_names=OP + ("is_fulfilled", "condition", "signature"))),
        ("swap", FT + "FulfillmentAtomicSwap", "is_fulfilled", """
def f(self, parent_condition):
    if not isinstance(parent_condition, ConditionAtomicSwap):
        raise TypeError('')
    return bool(self._signature)
""", "atomic swap fulfilled", A),
        ("tx", TX + "Base.TransactionBaseClass", "is_fulfilled", """
def f(self):
    return functools.reduce((lambda r, i: r and i.is_fulfilled()), list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
""", "transaction fulfilled", dict(MOD, opaque_names=OP + ("is_fulfilled", "_extra_is_fulfilled", "coin_inputs", "blockstake_inputs"))),
    ]
    rows += [
        ("absent", PT + "BinaryData", "__len__", "def f(self):\n    return len(self._value)", "a signature without bytes counts as absent", MOD),
    ]
    own = {}
    for v in (128, 129):
        own[v] = "def f(self):\n    if self._parent_mint_condition is None:\n        return False\n    return self.mint_fulfillment.is_fulfilled(parent_condition=self._parent_mint_condition)"
    for v in (144, 145, 210):
        own[v] = "def f(self):\n    return self._signature is not None"
    own[146] = "def f(self):\n    return self._sender_signature is not None and self._receiver_signature is not None"
    for v, c in CLS.items():
        rows.append(("v%d" % v, c, "_extra_is_fulfilled", own.get(v, "def f(self):\n    return True"), "transaction fulfilled", dict(A, opaque_names=OP + ("is_fulfilled", "mint_fulfillment"))))
    table(ctx, rows)
    r = ctx.repo
    ok = {IO + "CoinInput", IO + "BlockstakeInput", TX + "Base.TransactionBaseClass", FT + "FulfillmentBaseClass"} | {FT + "Fulfillment" + n for n in ("SingleSignature", "MultiSignature", "AtomicSwap")}
    for q in sorted(r.classes):
        if "is_fulfilled" in r.classes[q].methods:
            subs = [x for x in r.classes if x != q and q in r.mro(x)]
            ctx.ob("decided." + q.split(".")[-1], q in ok or (bool(subs) and all(x in ok for x in subs)), r.classes[q].module.rel, "fulfilment is decided by a class without a decided rule")
