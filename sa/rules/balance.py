"""P21: the balance of an address follows from its history; P22: networks and clients."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .table import table, find

WA = "tfchain.TFChainWallet."
WB = WA + "WalletBalance"
MB = WA + "MultiSigWalletBalance"
SB = WA + "WalletsBalance"
CL = "tfchain.TFChainClient."
UR = CL + "ExplorerUnlockhashResult"
WMOD = dict(modules=("tfchain.TFChainWallet",))
OUTS = "_outputs,_outputs_spent,_outputs_unconfirmed,_outputs_unconfirmed_spent"
CTXF = "_chain_time,_chain_height,_chain_blockid"


def p21(ctx):
    A = dict(WMOD, opaque_names=("unlockhash", "locked_check", "lock", "unwrap", "id", "value", "str"))
    F = dict(A, what=("value", "accept", "fields:" + OUTS + "," + CTXF + ",_addresses"))
    lk = "o.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)"
    full = "self.chain_time > 0 and self.chain_height > 0"
    rows = [
        ("bucket", WB, "output_add", """
def f(self, output, confirmed=True, spent=False):
    if confirmed and spent:
        self._outputs_spent[output.id] = output
        self._outputs.pop(output.id, None)
        self._outputs_unconfirmed.pop(output.id, None)
        self._outputs_unconfirmed_spent.pop(output.id, None)
    elif confirmed and output.id not in self._outputs_spent and output.id not in self._outputs_unconfirmed_spent:
        self._outputs[output.id] = output
        self._outputs_unconfirmed.pop(output.id, None)
    elif not confirmed and output.id not in self._outputs_spent:
        if spent:
            self._outputs_unconfirmed_spent[output.id] = output
            self._outputs_unconfirmed.pop(output.id, None)
            self._outputs.pop(output.id, None)
        elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
            self._outputs_unconfirmed[output.id] = output
    self._addresses.add(str(output.condition.unlockhash))
""", "an output added to a balance", dict(F, what=F["what"] + ("calls:add",))),
        ("new", WB, "__init__", """
def f(self):
    self._outputs = {}
    self._outputs_spent = {}
    self._outputs_unconfirmed = {}
    self._outputs_unconfirmed_spent = {}
    self._chain_time = 0
    self._chain_height = 0
    self._chain_blockid = Hash()
    self._addresses = set()
""", "an empty balance", F),
    ]
    for n, at in (("outputs_available", "_outputs"), ("outputs_unconfirmed_available", "_outputs_unconfirmed")):
        rows.append((n, WB, n, "def f(self):\n    if %s:\n        return [o for o in self.%s.values() if not %s]\n    return list(self.%s.values())" % (full, at, lk, at), "spendable outputs", A))
    rows.append(("available", WB, "available", "def f(self):\n    return sum([o.value for o in self.outputs_available]) or Currency()", "available amount", A))
    rows.append(("unconfirmed", WB, "unconfirmed", "def f(self):\n    return sum([o.value for o in self.outputs_unconfirmed_available]) or Currency()", "unconfirmed amount", A))
    for n, at in (("locked", "_outputs"), ("unconfirmed_locked", "_outputs_unconfirmed")):
        rows.append((n, WB, n, "def f(self):\n    if %s:\n        return sum([o.value for o in self.%s.values() if %s]) or Currency()\n    return Currency(value=0)" % (full, at, lk), "locked amount", A))
    for n in ("outputs_spent", "outputs_unconfirmed", "outputs_unconfirmed_spent", "chain_time", "chain_height", "chain_blockid"):
        rows.append(("get." + n, WB, n, "def f(self):\n    return self._%s" % n, "reading a balance", A))
    rows += [
        ("get.addresses", WB, "addresses", "def f(self):\n    return list(self._addresses)", "reading a balance", A),
        ("get.active", WB, "active", "def f(self):\n    return len(self._outputs) > 0 or len(self._outputs_unconfirmed) > 0", "reading a balance", A),
        ("set.time", WB, "chain_time", "def f(self, value):\n    if not isinstance(value, int):\n        raise TypeError('')\n    self._chain_time = int(value)", "chain time",
         dict(A, setter=True, what=("accept", "fields:_chain_time"))),
        ("set.height", WB, "chain_height", "def f(self, value):\n    if not isinstance(value, int):\n        raise TypeError('')\n    self._chain_height = int(value)", "chain height",
         dict(A, setter=True, what=("accept", "fields:_chain_height"))),
        ("set.block", WB, "chain_blockid", """
def f(self, value):
    if not value:
        self._chain_blockid = Hash()
    elif isinstance(value, Hash):
        self._chain_blockid.value = value.value
    else:
        self._chain_blockid.value = value
""", "chain block", dict(A, setter=True, what=("accept", "stores:value", "fields:_chain_blockid"))),
        ("base", WB, "_base", """
def f(self):
    b = WalletBalance()
    b._outputs = self._outputs
    b._outputs_spent = self._outputs_spent
    b._outputs_unconfirmed = self._outputs_unconfirmed
    b._outputs_unconfirmed_spent = self._outputs_unconfirmed_spent
    b._chain_blockid = self._chain_blockid
    b._chain_height = self._chain_height
    b._chain_time = self._chain_time
    b._addresses = self._addresses
    return b
""", "balance without wallets", A),
        ("merge", WB, "balance_add", """
def f(self, other):
    if other is None:
        return self
    if isinstance(other, (WalletsBalance, MultiSigWalletBalance)):
        return WalletsBalance().balance_add(self).balance_add(other)
    if not isinstance(other, WalletBalance):
        raise TypeError('')
    if self.chain_height >= other.chain_height:
        if self.chain_time < other.chain_time:
            raise ValueError('')
    else:
        if self.chain_time >= other.chain_time:
            raise ValueError('')
        self.chain_time = other.chain_time
        self.chain_height = other.chain_height
        self.chain_blockid = other.chain_blockid
    for o in list(other._outputs_spent.values()):
        WalletBalance.output_add(self, o, confirmed=True, spent=True)
    for o in list(other._outputs_unconfirmed_spent.values()):
        WalletBalance.output_add(self, o, confirmed=False, spent=True)
    for o in list(other._outputs.values()):
        WalletBalance.output_add(self, o, confirmed=True, spent=False)
    for o in list(other._outputs_unconfirmed.values()):
        WalletBalance.output_add(self, o, confirmed=False, spent=False)
    self._addresses |= other._addresses
    return self
""", "merging balances", dict(WMOD, opaque_names=("balance_add", "output_add", "unlockhash", "id", "chain_time", "chain_height", "chain_blockid"),
                            what=("value", "accept", "calls:output_add", "calls:balance_add", "stores:chain_time", "stores:chain_height", "stores:chain_blockid", "fields:_addresses",
                                  "raises:TypeError", "raises:ValueError"))),
        ("multisig.new", MB, "__init__", """
def f(self, owners, signature_count):
    if not isinstance(signature_count, int):
        raise TypeError('')
    if signature_count < 1 or len(owners) < signature_count:
        raise ValueError('')
    self._owners = owners
    self._signature_count = signature_count
    self._outputs = {}
    self._outputs_spent = {}
    self._outputs_unconfirmed = {}
    self._outputs_unconfirmed_spent = {}
    self._chain_time = 0
    self._chain_height = 0
    self._chain_blockid = Hash()
    self._addresses = set()
""", "an empty multisig balance", dict(F, what=("accept", "raises:TypeError", "raises:ValueError", "fields:_owners,_signature_count,_addresses," + OUTS + "," + CTXF))),
        ("multisig.address", MB, "address", "def f(self):\n    return str(ConditionMultiSignature(unlockhashes=self._owners, min_nr_sig=self._signature_count).unlockhash)", "multisig address", A),
        ("multisig.owners", MB, "owners", "def f(self):\n    return [str(o) for o in self._owners]", "multisig owners", A),
        ("multisig.count", MB, "signature_count", "def f(self):\n    return self._signature_count", "multisig signature count", A),
        ("multisig.merge", MB, "balance_add", """
def f(self, other):
    if other is None:
        return self
    if not isinstance(other, MultiSigWalletBalance):
        if isinstance(other, (WalletBalance, WalletsBalance)):
            return WalletsBalance().balance_add(self).balance_add(other)
        raise TypeError('')
    if self.address != other.address:
        raise ValueError('')
    return WalletBalance.balance_add(self, other._base)
""", "merging multisig balances", dict(WMOD, opaque_names=("balance_add", "address", "_base"), what=("value", "accept", "raises:TypeError", "raises:ValueError"))),
        ("wallets.new", SB, "__init__", """
def f(self):
    self._wallets = {}
    self._outputs = {}
    self._outputs_spent = {}
    self._outputs_unconfirmed = {}
    self._outputs_unconfirmed_spent = {}
    self._chain_time = 0
    self._chain_height = 0
    self._chain_blockid = Hash()
    self._addresses = set()
""", "an empty balance", dict(F, what=("accept", "fields:_wallets,_addresses," + OUTS + "," + CTXF))),
        ("wallets.get", SB, "wallets", "def f(self):\n    return self._wallets", "multisig wallets", A),
        ("wallets.addresses", SB, "addresses_multisig", "def f(self):\n    return list(self._wallets.keys())", "multisig addresses", A),
        ("wallets.multisig", SB, "multisig_output_add", """
def f(self, address, output, confirmed=True, spent=False):
    c = output.condition.unwrap()
    if not isinstance(c, ConditionMultiSignature):
        raise TypeError('')
    if address not in self._wallets:
        self._wallets[address] = MultiSigWalletBalance(owners=c.unlockhashes, signature_count=c.required_signatures)
    self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
""", "a multisig output", dict(WMOD, opaque_names=("output_add", "unwrap", "unlockhashes", "required_signatures"), what=("value", "accept", "raises:TypeError", "fields:_wallets", "calls:output_add"))),
        ("wallets.output", SB, "output_add", """
def f(self, output, confirmed=True, spent=False):
    u = output.condition.unlockhash
    if u.type == UnlockHashType.MULTI_SIG:
        return self.multisig_output_add(address=str(u), output=output, confirmed=confirmed, spent=spent)
    self._addresses.add(str(u))
    return WalletBalance.output_add(self, output=output, confirmed=confirmed, spent=spent)
""", "an output of the wallet", dict(WMOD, opaque_names=("output_add", "unlockhash", "type", "multisig_output_add"), what=("value", "accept", "calls:output_add", "calls:multisig_output_add"))),
        ("wallets.merge", SB, "balance_add", """
def f(self, other):
    if other is None:
        return self
    if not isinstance(other, WalletBalance):
        raise TypeError('')
    if isinstance(other, MultiSigWalletBalance):
        self._merge_multisig_wallet_balance(other.address, other)
        return self
    b = WalletBalance.balance_add(self, other._base)
    if b != self:
        raise Exception('')
    if isinstance(other, WalletsBalance):
        for a, w in other._wallets.items():
            b._merge_multisig_wallet_balance(a, w)
    return b
""", "merging balances", dict(WMOD, opaque_names=("balance_add", "_merge_multisig_wallet_balance", "address", "_base"),
                            what=("value", "accept", "raises:TypeError", "calls:_merge_multisig_wallet_balance", "calls:balance_add"))),
        ("wallets.merge.one", SB, "_merge_multisig_wallet_balance", """
def f(self, address, balance):
    if address not in self._wallets:
        self._wallets[address] = balance
    else:
        self._wallets[address] = self._wallets[address].balance_add(balance)
""", "merging multisig balances", dict(WMOD, opaque_names=("balance_add",), what=("accept", "fields:_wallets", "calls:balance_add"))),
    ]
    C = dict(modules=("tfchain.TFChainClient",))
    BO = ("output_add", "unlockhash", "unwrap", "unlockhashes", "required_signatures", "type", "coin_inputs", "coin_outputs", "blockchain_info_get", "mint_condition", "condition", "parent_output", "height",
          "timestamp", "blockid", "chain_height", "chain_time", "chain_blockid", "unconfirmed")
    rows += [
        ("history", UR, "balance", """
def f(self, info=None):
    if self._unlockhash.type == UnlockHashType.MULTI_SIG:
        b = self._multisig_balance(info)
    else:
        b = WalletBalance()
        a = str(self.unlockhash)
        for x in self.transactions:
            for i in x.coin_inputs:
                if str(i.parent_output.condition.unlockhash) == a:
                    b.output_add(i.parent_output, confirmed=not x.unconfirmed, spent=True)
            for o in x.coin_outputs:
                if str(o.condition.unlockhash) == a:
                    b.output_add(o, confirmed=not x.unconfirmed, spent=False)
    n = self._get_info(info)
    if n is not None:
        b.chain_height = n.height
        b.chain_time = n.timestamp
        b.chain_blockid = n.blockid
    return b
""", "balance of an address", dict(C, opaque_names=BO + ("_multisig_balance", "_get_info"),
                                 what=("value", "accept", "calls:output_add", "stores:chain_height", "stores:chain_time", "stores:chain_blockid", "calls:_get_info", "calls:_multisig_balance"))),
        ("history.multisig", UR, "_multisig_balance", """
def f(self, info):
    b = None
    a = str(self.unlockhash)
    for x in self.transactions:
        for i in x.coin_inputs:
            if str(i.parent_output.condition.unlockhash) == a:
                c = i.parent_output.condition.unwrap()
                if not isinstance(c, ConditionMultiSignature):
                    raise TypeError('')
                if b is None:
                    b = MultiSigWalletBalance(owners=c.unlockhashes, signature_count=c.required_signatures)
                b.output_add(i.parent_output, confirmed=not x.unconfirmed, spent=True)
        for o in x.coin_outputs:
            if str(o.condition.unlockhash) == a:
                c = o.condition.unwrap()
                if not isinstance(c, ConditionMultiSignature):
                    raise TypeError('')
                if b is None:
                    b = MultiSigWalletBalance(owners=c.unlockhashes, signature_count=c.required_signatures)
                b.output_add(o, confirmed=not x.unconfirmed, spent=False)
        if b is None and isinstance(x, TransactionV128) and str(x.mint_condition.unlockhash) == a:
            c = x.mint_condition.unwrap()
            b = MultiSigWalletBalance(owners=c.unlockhashes, signature_count=c.required_signatures)
    return WalletBalance() if b is None else b
""", "balance of a multisig address", dict(C, opaque_names=BO, what=("value", "accept", "raises:TypeError", "calls:output_add", "calls:MultiSigWalletBalance"))),
        ("history.info", UR, "_get_info", """
def f(self, info):
    if info is not None or self._client is None:
        return info
    return self._client.blockchain_info_get()
""", "chain information of a balance", dict(C, opaque_names=BO)),
        ("history.init", UR, "__init__", """
def f(self, unlockhash, transactions, multisig_addresses, erc20_info, client=None):
    if client is not None and not isinstance(client, TFChainClient):
        raise TypeError('')
    self._unlockhash = unlockhash
    self._transactions = transactions
    self._multisig_addresses = multisig_addresses
    self._client = client
    self._erc20_info = erc20_info
""", "address information", dict(C, what=("accept", "raises:TypeError", "fields:_unlockhash,_transactions,_multisig_addresses,_client,_erc20_info"))),
    ]
    for n in ("unlockhash", "transactions", "multisig_addresses", "erc20_info"):
        rows.append(("history.get." + n, UR, n, "def f(self):\n    return self._" + n, "address information", C))
    W = WA + "TFChainWallet"
    WO = ("_key_scan", "blockchain_info_get", "addresses", "_unlockhash_get", "balance", "balance_add", "multisig_addresses", "blockid", "timestamp", "height", "chain_blockid", "chain_time", "chain_height",
          "transactions", "client")
    rows += [
        ("wallet", W, "balance", """
def f(self):
    self._key_scan()
    n = self.client.blockchain_info_get()
    b = WalletsBalance()
    ms = []
    for a in self.addresses:
        try:
            r = self._unlockhash_get(a)
            b = b.balance_add(r.balance(info=n))
            for m in r.multisig_addresses:
                ms.append(str(m))
        except tfchain.errors.ExplorerNoContent:
            pass
    for a in ms:
        try:
            r = self._unlockhash_get(a)
            b = b.balance_add(r.balance(info=n))
        except tfchain.errors.ExplorerNoContent:
            pass
    b.chain_blockid = n.blockid
    b.chain_time = n.timestamp
    b.chain_height = n.height
    return b
""", "balance of the wallet", dict(WMOD, opaque_names=WO, what=("value", "accept", "calls:balance_add", "calls:balance", "calls:_unlockhash_get", "stores:chain_blockid", "stores:chain_time", "stores:chain_height"))),
        ("wallet.transactions", W, "transactions", """
def f(self):
    self._key_scan()
    s = set()
    for a in self.addresses:
        try:
            r = self._unlockhash_get(a)
            s.update(r.transactions)
        except tfchain.errors.ExplorerNoContent:
            pass
    return sorted(s, key=(lambda x: sys.maxsize if x.height < 0 else x.height), reverse=True)
""", "transactions of the wallet", dict(WMOD, opaque_names=WO, what=("value", "accept", "calls:_unlockhash_get"))),
        ("wallet.multisig", W, "addresses_multisig", "def f(self):\n    return self.balance.addresses_multisig", "multisig addresses", dict(WMOD, opaque_names=WO + ("addresses_multisig",))),
    ]
    table(ctx, rows)
