"""P14 addresses and keys; P15 conditions, locks and recipients; P16 signing; P17 fulfilment."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .jsonfmt import TT, CT, FT, CR, PT, IO, TB, E20, _intwrap
from .txlayout import CLS, TX, _dig
from .table import table, find

MOD = dict(modules=(TT[:-1],))
CRYP = "tfchain.crypto.merkletree."


def p14(ctx):
    r = ctx.repo
    UH = CT + "UnlockHash"
    rows = [
        ("address.read", UH, "from_json", """
def f(cls, obj):
    if not isinstance(obj, str):
        raise TypeError('')
    if len(obj) != 78:
        raise ValueError('')
    k = UnlockHashType(int(obj[:2], 16))
    h = Hash(value=obj[2:66])
    a = cls(type=k, hash=h)
    if k == UnlockHashType.NIL and h.value != b'\\x00' * 32:
        raise ValueError('')
    if a._checksum()[:6].hex() != obj[-12:]:
        raise ValueError('')
    return a
""", "reading an address", dict(MOD, opaque_names=("_checksum",), kind="classmethod", what=("value", "accept", "raises:TypeError", "raises:ValueError"))),
        ("address.text", UH, "__str__", """
def f(self):
    return bytearray([int(self._type)]).hex() + str(self._hash) + self._checksum()[:6].hex()
""", "text of an address", dict(MOD, opaque_names=("_checksum", "__str__"))),
        ("address.json", UH, "json", """
def f(self):
    return bytearray([int(self._type)]).hex() + str(self._hash) + self._checksum()[:6].hex()
""", "JSON form of an address", dict(MOD, opaque_names=("_checksum",))),
        ("address.eq", UH, "__eq__", """
def f(self, other):
    if isinstance(other, str):
        other = UnlockHash.from_json(other)
    elif not isinstance(other, UnlockHash):
        raise TypeError('')
    return self.type == other.type and self.hash == other.hash
""", "equality of addresses", dict(MOD, opaque_names=("from_json",))),
        ("address.ne", UH, "__ne__", """
def f(self, other):
    if isinstance(other, str):
        other = UnlockHash.from_json(other)
    elif not isinstance(other, UnlockHash):
        raise TypeError('')
    return self.type != other.type or self.hash != other.hash
""", "inequality of addresses", dict(MOD, opaque_names=("from_json",))),
        ("address.hash", UH, "__hash__", "def f(self):\n    return hash(str(self))", "hash of an address", dict(MOD, opaque_names=("__str__",))),
        ("addresstype.read", CT + "UnlockHashType", "from_json", """
def f(cls, obj):
    if type(obj) is str:
        return cls(int(obj))
    if not isinstance(obj, int):
        raise TypeError('')
    return cls(obj)
""", "reading an address type", dict(MOD, kind="classmethod")),
        ("key.read", CR + "PublicKey", "from_json", """
def f(cls, obj):
    if obj:
        if not isinstance(obj, str):
            raise TypeError('')
        p = obj.split(sep=':', maxsplit=2)
        if len(p) != 2:
            raise ValueError('')
        k = cls()
        k._specifier = PublicKeySpecifier.from_json(p[0])
        k._hash = Hash.from_json(p[1])
        return k
    return cls()
""", "reading a public key", dict(MOD, opaque_names=("from_json",), init=(CR + "PublicKey",), kind="classmethod", what=("accept", "value", "raises:TypeError", "raises:ValueError"))),
        ("key.text", CR + "PublicKey", "__str__", "def f(self):\n    return str(self.specifier) + ':' + str(self.hash)", "text of a public key", dict(MOD, opaque_names=("__str__",))),
        ("key.json", CR + "PublicKey", "json", "def f(self):\n    return str(self.specifier) + ':' + str(self.hash)", "JSON form of a public key", dict(MOD, opaque_names=("__str__",))),
        ("specifier.read", CR + "PublicKeySpecifier", "from_json", """
def f(cls, obj):
    if not obj:
        return PublicKeySpecifier.NIL
    if obj == 'ed25519':
        return PublicKeySpecifier.ED25519
    raise InvalidPublicKeySpecifier('')
""", "reading a key specifier", dict(MOD, kind="classmethod", what=("value", "accept", "raises:InvalidPublicKeySpecifier"))),
        ("specifier.text", CR + "PublicKeySpecifier", "__str__", "def f(self):\n    return 'ed25519' if self == PublicKeySpecifier.ED25519 else ''", "name of a key specifier", MOD),
    ]
    table(ctx, rows)
    wire_rule(ctx, "address.checksum", find(ctx, UH, "_checksum"), """
def f(self):
    if self._type == UnlockHashType.NIL:
        return b'\\x00' * 6
    w = encoder_rivine_get()
    w.u8(int(self._type))
    w.obj(self._hash)
    return hashlib.blake2b(w.data, digest_size=32).digest()
""", UH, enc_param=False, own=True)
    wire_rule(ctx, "key.address", find(ctx, CR + "PublicKey", "unlockhash"), """
def f(self):
    w = encoder_sia_get()
    w.obj(self)
    x = encoder_sia_get()
    x.slice(w.data)
    return UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash=hashlib.blake2b(x.data, digest_size=32).digest())
""", CR + "PublicKey", enc_param=False)



def p14_conditions(ctx):
    wire_rule(ctx, "erc20.address", find(ctx, E20 + "ERC20Address", "from_unlockhash"), """
def f(self, unlockhash):
    w = encoder_sia_get()
    w.obj(unlockhash)
    return ERC20Address(value=hashlib.blake2b(w.data, digest_size=32).digest()[12:])
""", E20 + "ERC20Address", enc_param=False)
    # the swap's fields are written field by field; whichever format the outer encoder has, addresses, the hashed secret and the
    # 8-byte lock time are the same bytes
    c = CT + "ConditionAtomicSwap"
    f = find(ctx, c, "unlockhash")
    why, ok = [], False
    for enc in ("rivine", "sia"):
        sp = spec(ctx, """
def f(self):
    w = encoder_%s_get()
    w.obj(self.sender)
    w.obj(self.receiver)
    w.obj(self.hashed_secret)
    w.u64(self.lock_time)
    x = encoder_sia_get()
    x.slice(w.data)
    return UnlockHash(type=UnlockHashType.ATOMIC_SWAP, hash=hashlib.blake2b(x.data, digest_size=32).digest())
""" % enc, c)
        kw = dict(MOD, self_cls=c, inline=ENC_GET, opaque_names=("sia_binary_encode", "rivine_binary_encode"))
        ra, rb = ctx.run(f, **kw), ctx.run(sp, **kw)
        wc = WireCmp(ra, rb, None, ctx)
        ok = ok or (ra.val is not None and wc.eq.same(ra.val, rb.val, mk_and(ra.pc, rb.pc)))
        why.append(wc.why or short(ra.val))
    ctx.ob("swap.address", ok, f.where, lambda: "address of an atomic swap condition: %s" % " / ".join(str(x) for x in why))
    rows = [
        ("nil.address", CT + "ConditionNil", "unlockhash", "def f(self):\n    return UnlockHash(type=UnlockHashType.NIL)", "address of the nil condition", MOD),
        ("lock.address", CT + "ConditionLockTime", "unlockhash", "def f(self):\n    return self.condition.unlockhash", "address of a time-locked condition", dict(MOD, opaque_names=("unlockhash", "condition"))),
        ("multisig.address", CT + "ConditionMultiSignature", "unlockhash", """
def f(self):
    u = sorted(self.unlockhashes, key=lambda x: str(x))
    m = Tree(hash_func=lambda o: hashlib.blake2b(o, digest_size=32).digest())
    m.push(sia_encode(len(u)))
    for x in u:
        m.push(sia_encode(x))
    m.push(sia_encode(self.required_signatures))
    return UnlockHash(type=UnlockHashType.MULTI_SIG, hash=m.root())
""", "address of a multi-signature condition", dict(MOD, opaque_names=("__str__",), what=("value", "accept", "calls:push"), hook=_dig)),
    ]
    table(ctx, rows)
    rows = [
        ("merkle.leaf", None, CRYP + "leaf_sum", "def f(h, data):\n    return sum_(h, bytearray([0]) + data)", "leaf of a Merkle tree", dict(pre=bytecat)),
        ("merkle.node", None, CRYP + "node_sum", "def f(h, a, b):\n    return sum_(h, bytearray([1]) + a + b)", "node of a Merkle tree", dict(pre=bytecat)),
        ("merkle.join", None, CRYP + "join_subtree", "def f(h, a, b):\n    s = SubTree(next=a.next, height=a.height + 1)\n    s.sum = node_sum(h, a.sum, b.sum)\n    return s", "joined trees"),
        ("merkle.sum", None, CRYP + "sum_", """
def f(h, data):
    if data is None:
        return None
    r = h(data)
    if hasattr(r, 'digest'):
        return r.digest()
    return r
""", "hash used in a Merkle tree"),
        ("merkle.subtree", CRYP + "SubTree", "__init__", "def f(self, next, height):\n    self.next = next\n    self.height = height", "subtree of a Merkle tree", dict(what=("accept", "fields:next,height"))),
        ("merkle.new", CRYP + "Tree", "__init__", "def f(self, hash_func):\n    self.head = None\n    self.hash_func = hash_func", "an empty Merkle tree", dict(what=("accept", "fields:head,hash_func"))),
        ("merkle.root", CRYP + "Tree", "root", """
def f(self):
    if self.head is None:
        return sum_(self.hash_func, bytearray())
    c = self.head
    while c.next is not None:
        c = join_subtree(self.hash_func, c.next, c)
    return c.sum
""", "root of a Merkle tree"),
        ("merkle.push", CRYP + "Tree", "push", """
def f(self, data):
    h = SubTree(next=self.head, height=0)
    h.sum = leaf_sum(self.hash_func, data)
    while h.next is not None and h.height == h.next.height:
        h = join_subtree(self.hash_func, h.next, h)
    self.head = h
""", "leaf added to a Merkle tree", dict(what=("accept", "fields:head"))),
    ]
    table(ctx, rows)


def bytecat(x):
    """a byte array extended by data is their concatenation"""
    def go(y):
        if y.tag == "extend":
            return t("op", "+", subst(y.args[0], go), subst(y.args[1], go))
        return None
    return subst(x, go)


def p14_all(ctx):
    p14(ctx)
    p14_conditions(ctx)
