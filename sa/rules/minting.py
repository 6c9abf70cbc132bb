"""P26: signing a transaction that is already there, and minting."""

from ..core import *
from ..lib import *
from .spend import SN, WA, WMOD, W
from .table import table

MI = WA + "TFChainMinter"
SR = WA + "TransactionSignResult"

FULFILL = """
    reqs = txn.signature_requests_new()
    if len(reqs) == 0:
        raise Exception("")
    for r in reqs:
        try:
            k = %(w)s.key_pair_get(r.wallet_address)
            r.signature_fulfill(k.public_key, k.sign(r.input_hash_new(k.public_key)))
        except KeyError:
            pass
    ok = txn.is_fulfilled()
"""

SIGNING = """
def f(self, txn, submit=True):
    if isinstance(txn, (str, dict)):
        txn = tfchain.types.transactions.from_json(txn)
    elif not isinstance(txn, TransactionBaseClass):
        raise TypeError("")
    balance = self.balance
    if len(txn.coin_inputs) > 0:
        known = {}
        for co in balance.outputs_available:
            known[co.id] = co
        for co in balance.outputs_unconfirmed_available:
            known[co.id] = co
        for w in balance.wallets.values():
            for co in w.outputs_available:
                known[co.id] = co
            for co in w.outputs_unconfirmed_available:
                known[co.id] = co
        for ci in txn.coin_inputs:
            if ci.parentid in known:
                ci.parent_output = known[ci.parentid]
    if isinstance(txn, (TransactionV128, TransactionV129)):
        txn.parent_mint_condition = self.client.minter.condition_get()
        if not txn.mint_fulfillment_defined():
            txn.mint_fulfillment = tfchain.types.FulfillmentTypes.from_condition(txn.parent_mint_condition)
    reqs = txn.signature_requests_new()
    if len(reqs) == 0:
        return TransactionSignResult(txn, False, False)
    n = 0
    for r in reqs:
        try:
            k = self.key_pair_get(r.wallet_address)
            r.signature_fulfill(k.public_key, k.sign(r.input_hash_new(k.public_key)))
            n += 1
        except KeyError:
            pass
    ok = txn.is_fulfilled()
    if submit and ok:
        txn.id = self.client.transaction_put(txn)
        mine = self.addresses + balance.addresses_multisig
        for ci in txn.coin_inputs:
            if str(ci.parent_output.condition.unlockhash) in mine:
                balance.output_add(ci.parent_output, confirmed=False, spent=True)
        for i, co in enumerate(txn.coin_outputs):
            if str(co.condition.unlockhash) in mine:
                co.id = txn.coin_outputid_new(i)
                balance.output_add(co, confirmed=False, spent=False)
    return TransactionSignResult(txn, n > 0, submit and ok)
"""

DEFINE = """
def f(self, minter, data=None):
    txn = tfchain.types.transactions.mint_definition_new()
    txn.miner_fee_add(self._wallet.client.minimum_miner_fee)
    txn.mint_condition = ConditionTypes.from_recipient(minter)
    if txn.mint_condition.unlockhash.type not in (UnlockHashType.PUBLIC_KEY, UnlockHashType.MULTI_SIG):
        raise ValueError("")
    if data is not None:
        txn.data = data
    txn.parent_mint_condition = self._wallet.client.minter.condition_get()
    txn.mint_fulfillment = tfchain.types.FulfillmentTypes.from_condition(txn.parent_mint_condition)
""" + FULFILL % dict(w="self._wallet") + """
    if ok:
        txn.id = self._wallet.client.transaction_put(txn)
    return TransactionSendResult(txn, ok)
"""

CREATE = """
def f(self, recipient, amount, lock=None, data=None):
    txn = tfchain.types.transactions.mint_coin_creation_new()
    txn.miner_fee_add(self._wallet.client.minimum_miner_fee)
    balance = self._wallet.balance
    amount = Currency(value=amount)
    if amount <= 0:
        raise ValueError("")
    txn.coin_output_add(amount, ConditionTypes.from_recipient(recipient, lock))
    if data is not None:
        txn.data = data
    txn.parent_mint_condition = self._wallet.client.minter.condition_get()
    txn.mint_fulfillment = tfchain.types.FulfillmentTypes.from_condition(txn.parent_mint_condition)
""" + FULFILL % dict(w="self._wallet") + """
    if ok:
        txn.id = self._wallet.client.transaction_put(txn)
        mine = self._wallet.addresses + balance.addresses_multisig
        for i, co in enumerate(txn.coin_outputs):
            if str(co.condition.unlockhash) in mine:
                co.id = txn.coin_outputid_new(i)
                balance.output_add(co, confirmed=False, spent=False)
    return TransactionSendResult(txn, ok)
"""

MN = tuple(n for n in SN if n not in ("_transaction_put", "id")) + (
    "transaction_put", "mint_definition_new", "mint_coin_creation_new", "mint_condition", "parent_mint_condition", "mint_fulfillment", "mint_fulfillment_defined", "condition_get", "minter",
    "from_condition", "type", "from_json", "outputs_available", "outputs_unconfirmed_available", "wallets", "parentid", "id")
MINTWHAT = ("value", "accept", "raises:ValueError", "raises:Exception", "raises:TypeError", "calls:miner_fee_add", "calls:coin_output_add", "stores:mint_condition", "stores:parent_mint_condition",
            "stores:mint_fulfillment", "stores:data", "stores:id", "calls:mint_definition_new", "calls:mint_coin_creation_new", "calls:condition_get",
            "calls:signature_requests_new", "calls:signature_fulfill", "calls:sign", "calls:input_hash_new", "calls:transaction_put", "calls:output_add",
            "before:miner_fee_add<signature_requests_new", "before:.mint_fulfillment<signature_requests_new", "before:.data<signature_requests_new", "before:signature_fulfill<is_fulfilled")


def p26(ctx):
    M = dict(WMOD, opaque_names=MN)
    rows = [
        ("sign", W, "transaction_sign", SIGNING, "signing a transaction", dict(WMOD, opaque_names=MN, what=("value", "accept", "raises:TypeError", "stores:parent_output", "stores:parent_mint_condition", "stores:mint_fulfillment",
                                                                              "stores:id", "calls:condition_get", "calls:signature_requests_new", "calls:signature_fulfill", "calls:sign", "calls:input_hash_new",
                                                                              "calls:transaction_put", "calls:output_add", "before:.parent_output<signature_requests_new", "before:.mint_fulfillment<signature_requests_new",
                                                                              "before:.parent_mint_condition<signature_requests_new", "before:signature_fulfill<is_fulfilled"))),
        ("definition", MI, "definition_set", DEFINE, "redefining the minters", dict(M, what=MINTWHAT + ("before:.mint_condition<signature_requests_new",))),
        ("coins", MI, "coins_new", CREATE, "creating coins", dict(M, what=MINTWHAT + ("before:coin_output_add<signature_requests_new", "before:transaction_put<output_add"))),
        ("result.init", SR, "__init__", "def f(self, transaction, signed, submitted):\n    self._transaction = transaction\n    self._signed = signed\n    self._submitted = submitted", "result of signing",
         dict(WMOD, what=("accept", "fields:_transaction,_signed,_submitted"))),
        ("result.transaction", SR, "transaction", "def f(self):\n    return self._transaction", "result of signing", WMOD),
        ("result.signed", SR, "signed", "def f(self):\n    return self._signed", "result of signing", WMOD),
        ("result.submitted", SR, "submitted", "def f(self):\n    return self._submitted", "result of signing", WMOD),
    ]
    table(ctx, rows)
