"""P25: keys come from the seed, secrets come from the operating system and stay in the wallet."""

import ast

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .table import table, find

WA = "tfchain.TFChainWallet."
W = WA + "TFChainWallet"
SK = WA + "SpendableKey"
WMOD = dict(modules=("tfchain.TFChainWallet",))
KN = ("_key_scan", "_key_pair_new", "_key_pair_add", "unlockhash", "key_count", "key_scan_count", "seed", "add", "add_array", "data", "_unlockhash_get", "unlockhash_get", "address", "blake2", "__init__", "client")

SCAN = """
def f(self):
    from functools import reduce
    if len(self._unused_key_pairs) != 0 or self.key_scan_count == 0:
        return False
    n = self.key_scan_count
    before = self.key_count
    while True:
        ps = []
        us = []
        for o in range(n):
            ps.append(self._key_pair_new(integrate=False, offset=o))
        for p in ps:
            a = str(p.unlockhash)
            try:
                self._unlockhash_get(a)
                us.append(True)
            except tfchain.errors.ExplorerNoContent:
                us.append(False)
        if not reduce(lambda a, b: a or b, us):
            break
        last = 0
        for i, p in enumerate(ps):
            if us[i]:
                last = i
                self._key_pair_add(p, add_count=False)
        for i, p in enumerate(ps[:last]):
            if not us[i]:
                self._unused_key_pairs.append(p)
        self._key_count += last + 1
        if not us[-1]:
            break
    return self.key_count > before
"""

INIT = """
def f(self, seed=None, key_count=1, key_start_index=0, key_scan_count=-1, client=None):
    import mnemonic
    self._client = client
    if self._client is None:
        self._client = tfchain.TFChainClient.TFChainClient()
    elif not isinstance(self._client, tfchain.TFChainClient.TFChainClient):
        raise TypeError("")
    self._key_pairs = {}
    self._primary_address = ''
    self._unused_key_pairs = []
    self._mnemonic_api = mnemonic.Mnemonic("english")
    self._seed = seed
    if self._seed is None:
        self._seed = self._mnemonic_api.to_entropy(self._mnemonic_api.generate(strength=256))
    elif isinstance(self._seed, str):
        self._seed = self._mnemonic_api.to_entropy(self._seed)
    elif not isinstance(self._seed, (bytearray, bytes)):
        raise TypeError("")
    n = max(1, key_count)
    self._key_scan_count = max(-1, key_scan_count)
    if self._key_scan_count == -1:
        self._key_scan_count = 3
    self._key_count = 0
    self._primary_address = str(self._key_pair_new().unlockhash)
    for _ in range(n - 1):
        self._key_pair_new()
    self._minter = TFChainMinter(wallet=self)
    self._atomicswap = TFChainAtomicSwap(wallet=self)
    self._threebot = TFChainThreeBot(wallet=self)
    self._erc20 = TFChainERC20(wallet=self)
    self._key_scan()
"""


def p25(ctx):
    K = dict(WMOD, opaque_names=KN)
    rows = [
        ("wallet.init", W, "__init__", INIT, "construction of a wallet", dict(K, what=("accept", "raises:TypeError", "fields:_client,_key_pairs,_primary_address,_unused_key_pairs,_seed,_key_scan_count,_key_count,_minter,_atomicswap,_threebot,_erc20",
                                                                             "calls:_key_pair_new", "calls:_key_scan", "calls:to_entropy", "calls:generate", "before:_key_pair_new<_key_scan"))),
        ("wallet.scan", W, "_key_scan", SCAN, "scanning for used keys", dict(K, opaque_names=tuple(n for n in KN if n != "key_count"), what=("value", "accept", "fields:_key_count,_unused_key_pairs", "calls:_key_pair_new", "calls:_key_pair_add", "calls:_unlockhash_get"))),
        ("key.new", W, "_key_pair_new", """
def f(self, integrate=True, offset=0):
    from ed25519 import SigningKey
    if integrate and len(self._unused_key_pairs) > 0:
        p = self._unused_key_pairs.pop(0)
        self._key_pair_add(p, add_count=False)
        return p
    e = encoder_sia_get()
    e.add_array(self.seed)
    e.add(self.key_count + offset)
    k = SigningKey(blake2(e.data))
    p = SpendableKey(public_key=PublicKey(specifier=PublicKeySpecifier.ED25519, hash=k.get_verifying_key().to_bytes()), private_key=k)
    if integrate:
        self._key_pair_add(p, add_count=True, offset=offset)
    return p
""", "a new key pair", dict(K, what=("value", "accept", "calls:_key_pair_add", "calls:add", "calls:add_array", "fields:_unused_key_pairs", "before:add_array<add"))),
        ("key.add", W, "_key_pair_add", """
def f(self, key_pair, add_count=True, offset=0):
    a = str(key_pair.unlockhash)
    if a in self._key_pairs:
        raise KeyError("")
    self._key_pairs[a] = key_pair
    if add_count:
        self._key_count += 1 + offset
""", "integrating a key pair", dict(K, what=("accept", "raises:KeyError", "fields:_key_pairs,_key_count"))),
        ("key.get", W, "key_pair_get", """
def f(self, unlockhash):
    if not isinstance(unlockhash, (str, UnlockHash)):
        raise TypeError("")
    u = str(unlockhash)
    k = self._key_pairs.get(self.address if u[:2] == '00' else u)
    if k is None:
        raise KeyError("")
    return k
""", "key of an address", dict(K, what=("value", "accept", "raises:TypeError", "raises:KeyError"))),
        ("address.new", W, "address_new", "def f(self):\n    return str(self._key_pair_new().unlockhash)", "a new address", dict(K, what=("value", "accept", "calls:_key_pair_new"))),
        ("public_key.new", W, "public_key_new", "def f(self):\n    return self._key_pair_new().public_key", "a new public key", dict(K, opaque_names=KN + ("public_key",), what=("value", "accept", "calls:_key_pair_new"))),
        ("wallet.addresses", W, "addresses", "def f(self):\n    self._key_scan()\n    return list(self._key_pairs.keys())", "addresses of the wallet", dict(K, what=("value", "accept", "calls:_key_scan"))),
        ("wallet.address", W, "address", "def f(self):\n    return self._primary_address", "primary address", WMOD),
        ("wallet.seed", W, "seed", "def f(self):\n    return self._seed", "seed", WMOD),
        ("wallet.mnemonic", W, "mnemonic", "def f(self):\n    return self._mnemonic_api.to_mnemonic(self.seed)", "mnemonic", dict(K)),
        ("wallet.key_count", W, "key_count", "def f(self):\n    return self._key_count", "number of keys", WMOD),
        ("wallet.key_scan_count", W, "key_scan_count", "def f(self):\n    return self._key_scan_count", "number of keys to scan", WMOD),
        ("spendable.init", SK, "__init__", """
def f(self, public_key, private_key):
    from ed25519 import SigningKey
    if not isinstance(public_key, PublicKey):
        raise TypeError("")
    if not isinstance(private_key, SigningKey):
        raise TypeError("")
    self._public_key = public_key
    self._private_key = private_key
""", "a key pair", dict(WMOD, what=("accept", "raises:TypeError", "fields:_public_key,_private_key"))),
        ("spendable.public_key", SK, "public_key", "def f(self):\n    return self._public_key", "public key", WMOD),
        ("spendable.private_key", SK, "private_key", "def f(self):\n    return self._private_key", "private key", WMOD),
        ("spendable.unlockhash", SK, "unlockhash", "def f(self):\n    return self._public_key.unlockhash", "address of a key", dict(WMOD, opaque_names=("unlockhash",))),
        ("spendable.sign", SK, "sign", """
def f(self, hash):
    h = hash if isinstance(hash, Hash) else Hash(value=hash)
    return self._private_key.sign(bytes(h.value))
""", "a signature", dict(WMOD, opaque_names=("value", "__init__", "sign"))),
    ]
    table(ctx, rows)
    secrets_stay(ctx)
    randomness(ctx)


SECRET = {"seed", "_seed", "mnemonic", "private_key", "_private_key"}
SINK_OK = {"add_array", "to_entropy", "to_mnemonic", "SigningKey", "blake2", "blake2b", "blake2_string", "sign", "get_verifying_key", "len", "bytes", "bytearray", "digest", "SpendableKey", "_key_pair_add", "isinstance", "type", "bool"}
PUBLIC = {"sign", "get_verifying_key", "type", "len", "isinstance", "bool"}
FEED = {"add", "add_array", "add_all", "add_int", "add_slice"}
HOLDERS = {SK}


def secrets_stay(ctx):
    """the seed and private keys reach nothing but key derivation and signing: no other call, no error, no other attribute or result"""
    r = ctx.repo
    fs, uses = [], {}
    for f in r.funcs.values():
        if f.module.name.startswith("tfchain.") and ".tests" not in f.module.name and not f.module.name.startswith("tfchain.internal"):
            uses[f] = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
    hot = SECRET | {"SigningKey"}
    while True:
        # new helpers are analysed inside the functions that use them
        more = {f.node.name for f, names in uses.items() if ctx.known is not None and f.qual not in ctx.known and names & hot} - hot
        if not more:
            break
        hot |= more
    fs = [f for f, names in uses.items() if names & hot]
    ctx.need(any(f.qual == W + "._key_pair_new" for f in fs), "no function derives keys from the seed")
    for f in fs:
        if ctx.known is not None and f.qual not in ctx.known:
            continue  # a new helper: analysed inside its callers
        res = ctx.run(f, modules=("tfchain.TFChainWallet",), opaque_names=("_key_scan", "unlockhash", "client", "_key_pair_add", "add", "add_array"), self_cls=f.cls.qual if f.cls is not None else None)
        tainted = set()
        helpers = {g.node.name for g in r.funcs.values() if ctx.known is not None and g.qual not in ctx.known} - {g.node.name for g in r.funcs.values() if g.qual in (ctx.known or ())}

        def leaks(x, seen=None):
            if isinstance(x, tuple):
                return any(leaks(y) for y in x)
            if not isinstance(x, T):
                return False
            if x in tainted:
                return True
            if x.tag == "a":
                return x.args[1] in SECRET or leaks(x.args[0])
            if x.tag == "v":
                return x.args[0] in ("private_key", "seed")
            if x.tag in ("isinst", "is", "mod"):
                return False
            if x.tag == "new" and x.args[0] in HOLDERS:
                return False
            if x.tag == "call":
                n = _callee(x.args[0])
                if n == "SigningKey":
                    return True
                if n in PUBLIC:
                    return False
            return any(leaks(y) for y in x.args)
        for e in res.events:
            if e.kind == "call" and e.name == "add_array" and e.recv is not None and leaks(e.args):
                tainted.add(e.recv)
        n = 0
        bad = []
        for e in res.events:
            if e.kind == "call":
                n += 1
                name = str(e.name).split(".")[-1].split(":")[-1]
                if name in helpers:
                    continue          # a helper: what it does with it is looked at as part of this
                a = leaks(e.args) or leaks(tuple(v for _, v in e.kw or ()))
                if (a and name not in SINK_OK) or (e.recv is not None and leaks(e.recv) and name not in SINK_OK and not (e.recv in tainted and name in FEED)):
                    bad.append("%s: %s is called with a secret" % (e.where, name))
            elif e.kind == "raise" and isinstance(e.val, T):
                n += 1
                if leaks(e.val):
                    bad.append("%s: the error carries a secret" % e.where)
            elif e.kind in ("store", "setprop") and isinstance(e.val, T):
                n += 1
                if leaks(e.val) and e.attr not in SECRET:
                    bad.append("%s: a secret is stored in %s" % (e.where, e.attr))
        v = res.val
        if v is not None and leaks(v) and not (f.kind == "getter" and f.node.name in SECRET):
            bad.append("%s: a secret is returned" % f.where)
        ctx.ob("secret.%s" % f.qual.split("tfchain.")[-1], not bad, f.where, lambda: "; ".join(bad[:3]))


def _callee(f):
    if f.tag == "ext":
        return f.args[0].split(".")[-1]
    if f.tag in ("a",):
        return f.args[1]
    if f.tag in ("fn", "bm"):
        return f.args[0].split(".")[-1]
    if f.tag == "b":
        return f.args[0]
    return None


OS_RANDOM = """
def f(x):
    import random
    out = bytearray()
    for _ in range(0, x):
        out.append(random.SystemRandom().randint(0, 255))
    return out
""", """
def f(x):
    import os
    return os.urandom(x)
""", """
def f(x):
    import os
    return bytearray(os.urandom(x))
""", """
def f(x):
    import secrets
    return secrets.token_bytes(x)
""", """
def f(x):
    import secrets
    return bytearray(secrets.token_bytes(x))
""", """
def f(x):
    import secrets
    return bytearray([secrets.randbelow(256) for _ in range(x)])
""", """
def f(x):
    import random
    return bytearray([random.SystemRandom().randint(0, 255) for _ in range(x)])
""", """
def f(x):
    import random
    return bytes([random.SystemRandom().randint(0, 255) for _ in range(x)])
"""


def randomness(ctx):
    """secrets and nonces are as many uniformly random bytes from the operating system as declared"""
    J = dict(modules=("tfchain.internal.jsutils",))
    one_of(ctx, ("random.bytes", None, "tfchain.internal.jsutils.generateXByteID", OS_RANDOM, "random bytes", dict(J)))
    table(ctx, [
        ("random.secret", "tfchain.types.ConditionTypes.AtomicSwapSecret", "random", "def f(cls):\n    return cls(value=generateXByteID(32))", "a new secret", dict(opaque_names=("generateXByteID", "__init__"))),
    ] + [("random.nonce.%s" % v, "tfchain.types.transactions.Minting.TransactionV%s" % v, "__init__", "def f(self):\n    self._nonce = BinaryData(generateXByteID(8), strencoding='base64')", "nonce of a minting transaction",
          dict(opaque_names=("generateXByteID", "__init__"), what=("fields:_nonce",))) for v in (128, 129)])


def one_of(ctx, row):
    """the function agrees with one of several equally good references"""
    key, cls, name, srcs, msg, opt = row
    last = None
    for s in srcs:
        c = Ctx(ctx.prop, ctx.tier, ctx.seed)
        table(c, [(key, cls, name, s, msg, dict(opt))])
        if not c.violations:
            break
        last = last or c
    f = find(ctx, cls, name)
    ctx.ob(key, not c.violations, f.where, lambda: last.violations[0]["msg"])
