"""P23 coin selection, P24 sending coins."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .table import table

WA = "tfchain.TFChainWallet."
SB = WA + "WalletsBalance"
WB = WA + "WalletBalance"
W = WA + "TFChainWallet"
CB = WA + "CoinTransactionBuilder"
WMOD = dict(modules=("tfchain.TFChainWallet",))

INDIVIDUAL = """
def f(self, amount, addresses):
    total = Currency(value=0)
    picked = []
    ls = [co for co in self.outputs_available if co.condition.unlockhash in addresses]
    ls.sort(key=lambda co: co.value)
    for co in ls:
        if co.value >= amount:
            return [co], co.value
        total += co.value
        picked.append(co)
        if len(picked) > 99:
            total -= picked.pop(0).value
        if total >= amount:
            return picked, total
    if total >= amount:
        return picked, total
    ls = [co for co in self.outputs_unconfirmed_available if co.condition.unlockhash in addresses]
    ls.sort(key=lambda co: co.value, reverse=True)
    for co in ls:
        if co.value >= amount:
            return [co], co.value
        total += co.value
        picked.append(co)
        if len(picked) > 99:
            total -= picked.pop(0).value
        if total >= amount:
            return picked, total
    return picked, total
"""

MULTISIG = """
def f(self, amount, addresses, outputs=None, collected=None):
    picked = [] if outputs is None else outputs
    total = Currency() if collected is None else collected
    for a, w in self.wallets.items():
        if UnlockHash.from_json(a) not in addresses:
            continue
        ls = w.outputs_available
        ls.sort(key=lambda co: co.value)
        for co in ls:
            if co.value >= amount:
                return [co], co.value
            total += co.value
            picked.append(co)
            if len(picked) > 99:
                total -= picked.pop(0).value
            if total >= amount:
                return picked, total
        if total >= amount:
            return picked, total
        ls = w.outputs_unconfirmed_available
        ls.sort(key=lambda co: co.value, reverse=True)
        for co in ls:
            if co.value >= amount:
                return [co], co.value
            total += co.value
            picked.append(co)
            if len(picked) > 99:
                total -= picked.pop(0).value
            if total >= amount:
                return picked, total
    return picked, total
"""

FUND = """
def f(self, amount, source=None):
    own = set()
    shared = set()
    refund = None
    if source is None:
        for co in self.outputs_available:
            own.add(co.condition.unlockhash)
        for co in self.outputs_unconfirmed_available:
            own.add(co.condition.unlockhash)
    else:
        if not isinstance(source, list):
            if isinstance(source, str):
                source = UnlockHash.from_json(source)
            elif not isinstance(source, UnlockHash):
                raise TypeError("")
            source = [source]
        source = [UnlockHash.from_json(v) if isinstance(v, str) else v for v in source]
        for v in source:
            if not isinstance(v, UnlockHash):
                raise TypeError("")
            if v.type == UnlockHashType.MULTI_SIG:
                shared.add(v)
            elif v.type == UnlockHashType.PUBLIC_KEY:
                own.add(v)
            else:
                raise TypeError("")
        if len(source) == 1:
            if source[0].type == UnlockHashType.PUBLIC_KEY:
                refund = ConditionTypes.unlockhash_new(source[0])
            elif str(source[0]) in self.wallets:
                w = self.wallets[str(source[0])]
                refund = ConditionTypes.multi_signature_new(w.signature_count, w.owners)
    if len(own) == 0 and len(shared) == 0:
        raise tfchain.errors.InsufficientFunds("")
    if len(own) == 0:
        picked, total = [], Currency()
    else:
        picked, total = self._fund_individual(amount, own)
    if total >= amount:
        return [CoinInput.from_coin_output(co) for co in picked], total - amount, refund
    if len(shared) == 0:
        raise tfchain.errors.InsufficientFunds("")
    picked, total = self._fund_multisig(amount, shared, picked, total)
    if total < amount:
        raise tfchain.errors.InsufficientFunds("")
    return [CoinInput.from_coin_output(co) for co in picked], total - amount, refund
"""

FO = ("outputs_available", "outputs_unconfirmed_available", "unlockhash", "value", "wallets", "from_json", "type", "unlockhash_new", "multi_signature_new", "from_coin_output", "signature_count", "owners",
      "_fund_individual", "_fund_multisig", "__init__", "__ge__", "__gt__", "__lt__", "__le__", "__add__", "__sub__", "__iadd__", "__isub__", "minus", "plus")


def p23(ctx):
    F = dict(WMOD, opaque_names=FO)
    rows = [
        ("fund", SB, "fund", FUND, "funding an amount", dict(F, what=("value", "accept", "raises:TypeError", "raises:InsufficientFunds", "calls:_fund_individual", "calls:_fund_multisig"))),
        ("individual", SB, "_fund_individual", INDIVIDUAL, "choosing personal outputs", F),
        ("multisig", SB, "_fund_multisig", MULTISIG, "choosing multi-signature outputs", F),
    ]
    table(ctx, rows)


SIGN = """
    reqs = txn.signature_requests_new()
    if len(reqs) == 0:
        raise Exception("")
    for r in reqs:
        try:
            k = %(w)s.key_pair_get(r.wallet_address)
            r.signature_fulfill(k.public_key, k.sign(r.input_hash_new(k.public_key)))
        except KeyError:
            pass
    ok = txn.is_fulfilled()
    if ok:
        txn.id = %(w)s._transaction_put(txn)
        for ci in txn.coin_inputs:
            balance.output_add(ci.parent_output, confirmed=False, spent=True)
        mine = %(w)s.addresses + balance.addresses_multisig
        for i, co in enumerate(txn.coin_outputs):
            if str(co.condition.unlockhash) in mine:
                co.id = txn.coin_outputid_new(i)
                balance.output_add(co, confirmed=False, spent=False)
    return TransactionSendResult(txn, ok)
"""

REFUND = """
    if refund is None:
        refund = ConditionTypes.unlockhash_new(%(w)s.address) if suggested is None else suggested
    else:
        refund = ConditionTypes.from_recipient(refund)
"""

SENDS = """
def f(self, recipient, amount, source=None, refund=None, lock=None, data=None):
    if ERC20Address.is_valid_value(recipient):
        if lock is not None:
            raise ValueError("")
        if data is not None:
            raise ValueError("")
        return self.erc20.coins_send(recipient, amount, source, refund)
    amount = Currency(value=amount)
    if amount <= 0:
        raise ValueError("")
    recipient = ConditionTypes.from_recipient(recipient, lock)
    balance = self.balance
    fee = self.client.minimum_miner_fee
    inputs, rest, suggested = balance.fund(amount + fee, source)
""" + REFUND + """
    txn = tfchain.types.transactions.new()
    txn.coin_output_add(amount, recipient)
    if rest > 0:
        txn.coin_output_add(rest, refund)
    txn.miner_fee_add(fee)
    txn.coin_inputs = inputs
    if data:
        txn.data = data
""" + SIGN

BUILD = """
def f(self, source=None, refund=None, data=None):
    if self._txn is None:
        raise RuntimeError("")
    txn = self._txn
    self._txn = None
    amount = sum([co.value for co in txn.coin_outputs])
    balance = self._wallet.balance
    fee = self._wallet.client.minimum_miner_fee
    inputs, rest, suggested = balance.fund(amount + fee, source)
""" + REFUND + """
    if rest > 0:
        txn.coin_output_add(rest, refund)
    txn.miner_fee_add(fee)
    txn.coin_inputs = inputs
    if data:
        txn.data = data
""" + SIGN

SN = ("balance", "minimum_miner_fee", "fund", "from_recipient", "unlockhash_new", "new", "coin_output_add", "miner_fee_add", "coin_inputs", "data", "signature_requests_new", "key_pair_get", "wallet_address",
      "input_hash_new", "sign", "signature_fulfill", "is_fulfilled", "_transaction_put", "addresses", "addresses_multisig", "coin_outputid_new", "output_add", "unlockhash", "is_valid_value", "erc20", "coins_send",
      "__init__", "__le__", "__gt__", "__add__", "plus", "public_key", "address", "client", "id", "coin_outputs", "parent_output", "__radd__")
SENDWHAT = ("value", "accept", "raises:ValueError", "raises:Exception", "raises:RuntimeError", "calls:coins_send", "calls:fund", "calls:coin_output_add", "calls:miner_fee_add", "stores:coin_inputs", "stores:data", "stores:id",
            "calls:signature_requests_new", "calls:signature_fulfill", "calls:sign", "calls:input_hash_new", "calls:_transaction_put", "calls:output_add",
            "calls:new", "before:fund<_transaction_put", "before:coin_output_add<signature_requests_new", "before:miner_fee_add<signature_requests_new", "before:.coin_inputs<signature_requests_new", "before:.data<signature_requests_new",
            "before:signature_fulfill<is_fulfilled", "before:_transaction_put<output_add")


def p24(ctx):
    S = dict(WMOD, opaque_names=SN)
    rows = [
        ("send", W, "coins_send", SENDS % dict(w="self"), "sending coins", dict(S, what=SENDWHAT)),
        ("builder.send", CB, "send", BUILD % dict(w="self._wallet"), "sending several outputs", dict(S, what=SENDWHAT + ("fields:_txn",))),
        ("builder.init", CB, "__init__", "def f(self, wallet):\n    self._txn = tfchain.types.transactions.new()\n    self._wallet = wallet", "a new builder", dict(S, what=("accept", "fields:_txn,_wallet"))),
        ("builder.add", CB, "output_add", """
def f(self, recipient, amount, lock=None):
    if self._txn is None:
        raise RuntimeError("")
    amount = Currency(value=amount)
    if amount <= 0:
        raise ValueError("")
    self._txn.coin_output_add(amount, ConditionTypes.from_recipient(recipient, lock))
    return self
""", "adding an output", dict(S, what=("value", "accept", "raises:ValueError", "raises:RuntimeError", "calls:coin_output_add"))),
        ("builder.new", W, "coin_transaction_builder_new", "def f(self):\n    return CoinTransactionBuilder(self)", "a new builder", dict(S)),
        ("drain", WB, "drain", """
def f(self, recipient, miner_fee, unconfirmed=False, data=None, lock=None):
    recipient = ConditionTypes.from_recipient(recipient, lock)
    if not isinstance(miner_fee, Currency):
        raise TypeError("")
    if miner_fee == 0:
        raise ValueError("")
    out = []
    left = self.outputs_available
    if unconfirmed:
        left += self.outputs_unconfirmed_available
    while len(left) > 0:
        txn = tfchain.types.transactions.new()
        txn.data = data
        txn.miner_fee_add(miner_fee)
        n = min(len(left), 99)
        some = left[:n]
        left = left[n:]
        txn.coin_output_add(condition=recipient, value=sum([co.value for co in some]) - miner_fee)
        txn.coin_inputs = [CoinInput.from_coin_output(co) for co in some]
        out.append(txn)
    return out
""", "draining a wallet", dict(S, opaque_names=SN + ("outputs_available", "outputs_unconfirmed_available", "from_coin_output", "value", "__eq__"),
                              what=("value", "accept", "raises:TypeError", "raises:ValueError", "calls:new", "calls:coin_output_add", "calls:miner_fee_add", "stores:data", "stores:coin_inputs"))),
        ("result.init", WA + "TransactionSendResult", "__init__", "def f(self, transaction, submitted):\n    self._transaction = transaction\n    self._submitted = submitted", "result of sending",
         dict(WMOD, what=("accept", "fields:_transaction,_submitted"))),
        ("result.transaction", WA + "TransactionSendResult", "transaction", "def f(self):\n    return self._transaction", "result of sending", WMOD),
        ("result.submitted", WA + "TransactionSendResult", "submitted", "def f(self):\n    return self._submitted", "result of sending", WMOD),
        ("transaction_put", W, "_transaction_put", "def f(self, transaction):\n    return self.client.transaction_put(transaction)", "submission", dict(S, opaque_names=SN + ("transaction_put",))),
    ]
    table(ctx, rows)
