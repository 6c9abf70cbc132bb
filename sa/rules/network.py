"""P22: networks and the client that talks to them."""

import ast

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .table import table

CL = "tfchain.TFChainClient."
NT = CL + "NetworkType"
TC = CL + "TFChainClient"
XC = "tfchain.TFChainExplorerClient.TFChainExplorerClient"
NETS = (("STANDARD", 0), ("TESTNET", 1), ("DEVNET", 2))


def p22(ctx):
    C = dict(modules=("tfchain.TFChainClient",))
    networks(ctx)
    rows = [
        ("network.init", NT, "__init__", "def f(self, value):\n    self._value = value.value if isinstance(value, NetworkType) else value", "a network type",
         dict(C, what=("accept", "fields:_value"))),
        ("network.value", NT, "value", "def f(self):\n    return self._value", "value of a network type", C),
        ("network.int", NT, "__int__", "def f(self):\n    return self._value", "number of a network type", C),
        ("network.eq", NT, "__eq__", "def f(self, other):\n    return self._value == (other.value if isinstance(other, NetworkType) else other)", "network types compare by value", C),
        ("network.from_str", NT, "from_str", """
def f(cls, s):
    if not isinstance(s, str):
        raise TypeError("")
    n = s.lower()
    if n == "standard" or n == "std":
        return NetworkType.STANDARD
    if n == "testnet":
        return NetworkType.TESTNET
    if n == "devnet":
        return NetworkType.DEVNET
    raise ValueError("")
""", "network of a name", dict(C, what=("value", "accept", "raises:TypeError", "raises:ValueError"))),
        ("network.fee", NT, "minimum_miner_fee", """
def f(self):
    return Currency('1.0') if self == NetworkType.DEVNET else Currency('0.1')
""", "minimum miner fee of a network", dict(C, opaque_names=("__eq__", "__init__"))),
        ("network.explorers", NT, "default_explorer_addresses", """
def f(self):
    if self == NetworkType.STANDARD:
        return ['https://explorer.threefoldtoken.com', 'https://explorer2.threefoldtoken.com', 'https://explorer3.threefoldtoken.com', 'https://explorer4.threefoldtoken.com']
    if self == NetworkType.TESTNET:
        return ['https://explorer.testnet.threefoldtoken.com', 'https://explorer2.testnet.threefoldtoken.com']
    return ['http://localhost:23110']
""", "default explorers of a network", dict(C, opaque_names=("__eq__",))),
        ("client.init", TC, "__init__", """
def f(self, explorer_client=None, network_type=None):
    n = network_type
    if n is not None:
        if isinstance(n, str):
            n = NetworkType.from_str(n)
        elif not isinstance(n, NetworkType):
            raise TypeError("")
    e = explorer_client
    if not e:
        if n is None:
            n = NetworkType.STANDARD
        e = TFChainExplorerClient(n.default_explorer_addresses())
    elif not isinstance(e, TFChainExplorerClient):
        raise TypeError("")
    elif n is None:
        n = NetworkType.from_str(json_loads(e.get("/explorer/constants")).get("chaininfo", {}).get("NetworkName", "standard"))
    self._network_type = n
    self._explorer_client = e
    self._threebot = TFChainThreeBotClient(self)
    self._minter = TFChainMinterClient(self)
    self._erc20 = TFChainERC20Client(self)
""", "construction of a client", dict(C, opaque_names=("from_str", "default_explorer_addresses", "get", "__init__"),
                                     what=("accept", "raises:TypeError", "fields:_network_type,_explorer_client,_threebot,_minter,_erc20", "calls:from_str", "calls:get"))),
        ("client.network", TC, "network", "def f(self):\n    return self._network_type", "network of a client", C),
        ("client.threebot", TC, "threebot", "def f(self):\n    return self._threebot", "3Bot client", C),
        ("client.minter", TC, "minter", "def f(self):\n    return self._minter", "minter client", C),
        ("client.erc20", TC, "erc20", "def f(self):\n    return self._erc20", "ERC20 client", C),
        ("client.explorers", TC, "explorer_addresses", "def f(self):\n    return self._explorer_client.addresses", "explorers of a client", dict(C, props=False)),
        ("client.fee", TC, "minimum_miner_fee", "def f(self):\n    return self._network_type.minimum_miner_fee()", "minimum miner fee of a client", dict(C, opaque_names=("minimum_miner_fee",))),
        ("client.get", TC, "explorer_get", "def f(self, endpoint):\n    return self._explorer_client.get(endpoint)", "requests of a client", dict(C, what=("value", "accept", "calls:get"))),
        ("client.post", TC, "explorer_post", "def f(self, endpoint, data):\n    return self._explorer_client.post(endpoint, data)", "submissions of a client", dict(C, what=("value", "accept", "calls:post"))),
        ("explorers.init", XC, "__init__", """
def f(self, addresses):
    if not isinstance(addresses, list) or len(addresses) == 0:
        raise TypeError("")
    self._addresses = addresses
""", "explorer addresses", dict(modules=("tfchain.TFChainExplorerClient",), what=("accept", "fields:_addresses", "raises:TypeError"))),
        ("explorers.addresses", XC, "addresses", "def f(self):\n    return self._addresses", "explorer addresses", dict(modules=("tfchain.TFChainExplorerClient",))),
    ]
    for n in ("TFChainThreeBotClient", "TFChainMinterClient", "TFChainERC20Client"):
        rows.append(("sub.%s" % n, CL + n, "__init__", """
def f(self, client):
    if not isinstance(client, TFChainClient):
        raise TypeError("")
    self._client = client
""", "the client behind %s" % n, dict(C, what=("accept", "fields:_client", "raises:TypeError"))))
    for n in ("TFChainMinter", "TFChainAtomicSwap", "TFChainThreeBot", "TFChainERC20"):
        W = dict(modules=("tfchain.TFChainWallet",))
        q = "tfchain.TFChainWallet." + n
        rows.append(("wallet.%s" % n, q, "__init__", """
def f(self, wallet):
    if not isinstance(wallet, TFChainWallet):
        raise TypeError("")
    self._wallet = wallet
""", "the wallet behind %s" % n, dict(W, what=("accept", "fields:_wallet", "raises:TypeError"))))
        rows.append(("wallet.%s.fee" % n, q, "_minium_miner_fee", "def f(self):\n    return self._wallet.client.minimum_miner_fee", "minimum miner fee", dict(W, props=False)))
        rows.append(("wallet.%s.put" % n, q, "_transaction_put", "def f(self, transaction):\n    return self._wallet.client.transaction_put(transaction)", "submission", dict(W, opaque_names=("transaction_put",), props=False)))
    for n, a in (("client", "_client"), ("minter", "_minter"), ("atomicswap", "_atomicswap"), ("threebot", "_threebot"), ("erc20", "_erc20")):
        rows.append(("wallet.api.%s" % n, "tfchain.TFChainWallet.TFChainWallet", n, "def f(self):\n    return self.%s" % a, "the wallet's %s" % n, dict(modules=("tfchain.TFChainWallet",))))
    for n in ("TFChainAtomicSwap", "TFChainThreeBot"):
        rows.append(("wallet.%s.time" % n, "tfchain.TFChainWallet." + n, "_chain_time", "def f(self):\n    return self._wallet.client.blockchain_info_get().timestamp", "chain time",
                     dict(modules=("tfchain.TFChainWallet",), opaque_names=("blockchain_info_get",), props=False)))
    table(ctx, rows)


def networks(ctx):
    """the constants attached to NetworkType after the class: each assigned once, to NetworkType(number)"""
    r = ctx.repo
    cls = r.classes.get(NT)
    ctx.need(cls is not None, "NetworkType not found")
    got = {}
    for m in r.modules.values():
        for node in ast.walk(m.tree):
            tg = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []
            for x in tg:
                if isinstance(x, ast.Attribute) and x.attr in dict(NETS) and isinstance(x.value, ast.Name) and x.value.id in ("NetworkType", "cls"):
                    got.setdefault(x.attr, []).append((m, node))
    it = ctx.interp(modules=("tfchain.TFChainClient",))
    for n, v in NETS:
        w = "%s:%d" % (cls.module.path if hasattr(cls.module, "path") else cls.module.name, cls.node.lineno)
        a = got.get(n, [])
        if not ctx.ob("network.constant.%s.once" % n, len(a) == 1, w, "NetworkType.%s is assigned %d times, expected once" % (n, len(a))):
            continue
        m, node = a[0]
        val = it._const_expr(m, node.value)
        num = val.args[2][0] if val.tag == "new" and val.args[0] == NT and val.args[2] else None
        if num is None and val.tag == "new":
            num = dict(val.args[3]).get("value")
        if num is not None and val.args[0] == NT:
            ctx.ob("network.constant.%s" % n, num is const(v), w, lambda: "NetworkType.%s is %s, expected %d" % (n, short(num), v))
        else:
            ctx.ob("network.constant.%s" % n, False, w, lambda: "NetworkType.%s is %s, expected NetworkType(%d)" % (n, short(val), v))
