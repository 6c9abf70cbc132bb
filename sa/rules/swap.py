"""P27: atomic swaps."""

from ..core import *
from ..lib import *
from .minting import FULFILL
from .spend import SN, WA, WMOD
from .table import table

AS = WA + "TFChainAtomicSwap"
AC = "tfchain.types.AtomicSwap.AtomicSwapContract"

INITIATE = """
def f(self, participator, amount, refund_time='+48h', source=None, refund=None, data=None, submit=True):
    s = AtomicSwapSecret.random()
    r = self._create_contract(participator, amount, refund_time, source, refund, data, AtomicSwapSecretHash.from_secret(s), submit)
    return AtomicSwapInitiationResult(AtomicSwapContract(r.transaction.coin_outputs[0], True, self._wallet.client.blockchain_info_get().timestamp), s, r.transaction, r.submitted)
"""

PARTICIPATE = """
def f(self, initiator, amount, secret_hash, refund_time='+24h', source=None, refund=None, data=None, submit=True):
    r = self._create_contract(initiator, amount, refund_time, source, refund, data, AtomicSwapSecretHash(value=secret_hash), submit)
    return AtomicSwapParticipationResult(AtomicSwapContract(r.transaction.coin_outputs[0], True, self._wallet.client.blockchain_info_get().timestamp), r.transaction, r.submitted)
"""

VERIFY = """
def f(self, outputid, amount=None, secret_hash=None, min_refund_time=None, sender=False, receiver=False, contract=None):
    if contract is None:
        try:
            co, _, txn = self._wallet.client.coin_output_get(outputid)
        except tfchain.errors.ExplorerNoContent as x:
            raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from x
        if txn is not None:
            raise tfchain.errors.AtomicSwapContractSpent(AtomicSwapContract(co, False, self._wallet.client.blockchain_info_get().timestamp), txn)
        contract = AtomicSwapContract(co, True, self._wallet.client.blockchain_info_get().timestamp)
    elif not isinstance(contract, AtomicSwapContract):
        raise TypeError("")
    elif contract.outputid != outputid:
        raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    if amount is not None:
        amount = Currency(value=amount)
        if amount != contract.amount:
            raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    if secret_hash is not None:
        secret_hash = AtomicSwapSecretHash(value=secret_hash)
        if secret_hash != contract.secret_hash:
            raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    if min_refund_time is not None:
        now = self._wallet.client.blockchain_info_get().timestamp
        if isinstance(min_refund_time, str):
            min_refund_time = OutputLock(min_refund_time, now).value
        elif not isinstance(min_refund_time, int):
            raise TypeError("")
        want = max(0, min_refund_time - now)
        now = self._wallet.client.blockchain_info_get().timestamp
        if now >= contract.refund_timestamp:
            left = 0
        else:
            left = contract.refund_timestamp - now
        if want <= 0:
            if left != 0:
                raise tfchain.errors.AtomicSwapContractInvalid("", contract)
        elif left < want:
            raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    if sender and contract.sender not in self._wallet.addresses:
        raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    if receiver and contract.receiver not in self._wallet.addresses:
        raise tfchain.errors.AtomicSwapContractInvalid("", contract)
    return contract
"""

FETCH = """
    try:
        co, _, txn = self._wallet.client.coin_output_get(outputid)
    except tfchain.errors.ExplorerNoContent as x:
        raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from x
    c = AtomicSwapContract(co, False, self._wallet.client.blockchain_info_get().timestamp)
    if txn is not None:
        raise tfchain.errors.AtomicSwapContractSpent(c, txn)
"""

REDEEM = """
def f(self, outputid, secret, data=None):
""" + FETCH + """
    if not c.verify_secret(secret):
        raise tfchain.errors.AtomicSwapInvalidSecret(c)
    if c.receiver not in self._wallet.addresses:
        raise tfchain.errors.AtomicSwapForbidden("", c)
    return self._claim_contract(c, False, tfchain.types.FulfillmentTypes.atomic_swap_new(secret=secret), data)
"""

REFUND = """
def f(self, outputid, data=None):
""" + FETCH + """
    if self._wallet.client.blockchain_info_get().timestamp < c.refund_timestamp:
        raise tfchain.errors.AtomicSwapForbidden("", c)
    if c.sender not in self._wallet.addresses:
        raise tfchain.errors.AtomicSwapForbidden("", c)
    return self._claim_contract(c, True, tfchain.types.FulfillmentTypes.atomic_swap_new(), data)
"""

CREATE = """
def f(self, recipient, amount, refund_time, source, refund, data, secret_hash, submit):
    amount = Currency(value=amount)
    if amount <= 0:
        raise ValueError("")
    fee = self._wallet.client.minimum_miner_fee
    if amount <= fee:
        raise tfchain.errors.AtomicSwapInsufficientAmountError(amount, fee)
    balance = self._wallet.balance
    inputs, rest, suggested = balance.fund(amount + fee, source)
    if refund is not None:
        refund = ConditionTypes.from_recipient(refund)
    elif suggested is not None:
        refund = ConditionTypes.from_recipient(suggested)
    else:
        refund = ConditionTypes.from_recipient(self._wallet.address)
    if isinstance(refund, ConditionUnlockHash):
        sender = refund.unlockhash
    else:
        sender = self._wallet.address
    txn = tfchain.types.transactions.new()
    txn.coin_inputs = inputs
    txn.miner_fee_add(fee)
    txn.data = data
    if isinstance(refund_time, str):
        refund_time = OutputLock(refund_time, self._wallet.client.blockchain_info_get().timestamp).value
    elif not isinstance(refund_time, int):
        raise TypeError("")
    txn.coin_output_add(amount, ConditionTypes.atomic_swap_new(sender, recipient, secret_hash, refund_time))
    if rest > 0:
        txn.coin_output_add(rest, refund)
""" + FULFILL % dict(w="self._wallet") + """
    for i, co in enumerate(txn.coin_outputs):
        co.id = txn.coin_outputid_new(i)
    if submit and ok:
        txn.id = self._wallet.client.transaction_put(txn)
        for ci in txn.coin_inputs:
            balance.output_add(ci.parent_output, confirmed=False, spent=True)
        mine = self._wallet.addresses + balance.addresses_multisig
        for i, co in enumerate(txn.coin_outputs):
            if str(co.condition.unlockhash) in mine:
                balance.output_add(co, confirmed=False, spent=False)
    return TransactionSendResult(txn, submit and ok)
"""

CLAIM = """
def f(self, contract, as_sender, fulfillment, data):
    txn = tfchain.types.transactions.new()
    fee = self._wallet.client.minimum_miner_fee
    txn.miner_fee_add(fee)
    txn.data = data
    txn.coin_input_add(contract.outputid, fulfillment, contract.coin_output)
    txn.coin_output_add(contract.amount - fee, ConditionTypes.unlockhash_new(contract.sender if as_sender else contract.receiver))
""" + FULFILL % dict(w="self._wallet") + """
    if not ok:
        raise Exception("")
    txn.id = self._wallet.client.transaction_put(txn)
    balance = self._wallet.balance
    mine = self._wallet.addresses
    for i, co in enumerate(txn.coin_outputs):
        if str(co.condition.unlockhash) in mine:
            co.id = txn.coin_outputid_new(i)
            balance.output_add(co, confirmed=False, spent=False)
    return txn
"""

AN = tuple(n for n in SN if n not in ("_transaction_put",)) + (
    "transaction_put", "coin_input_add", "blockchain_info_get", "timestamp", "value", "coin_output_get", "_create_contract", "_claim_contract", "random", "from_secret", "atomic_swap_new",
    "verify_secret", "sender", "receiver", "refund_timestamp", "outputid", "amount", "secret_hash", "coin_output", "__eq__", "__ne__", "__contains__", "transaction", "submitted", "coin_outputs", "__sub__", "minus", "__lt__")
AEXC = ("raises:ValueError", "raises:TypeError", "raises:Exception", "raises:AtomicSwapInsufficientAmountError", "raises:AtomicSwapContractNotFound", "raises:AtomicSwapContractSpent",
        "raises:AtomicSwapContractInvalid", "raises:AtomicSwapForbidden", "raises:AtomicSwapInvalidSecret")
DONE = ("calls:new", "calls:fund", "calls:coin_output_add", "calls:coin_input_add", "calls:miner_fee_add", "stores:coin_inputs", "stores:data", "stores:id", "calls:signature_requests_new", "calls:signature_fulfill",
        "calls:sign", "calls:input_hash_new", "calls:transaction_put", "calls:output_add", "before:coin_output_add<signature_requests_new", "before:miner_fee_add<signature_requests_new",
        "before:.coin_inputs<signature_requests_new", "before:.data<signature_requests_new", "before:signature_fulfill<is_fulfilled")


def p27(ctx):
    A = dict(WMOD, opaque_names=AN)
    B = dict(modules=("tfchain.types.AtomicSwap",), opaque_names=("json", "value", "condition", "id", "lock_time", "hashed_secret", "from_secret", "__init__", "__eq__", "sender", "receiver"))
    rows = [
        ("initiate", AS, "initiate", INITIATE, "initiating a swap", dict(A, what=("value", "accept", "calls:_create_contract", "calls:random") + AEXC)),
        ("participate", AS, "participate", PARTICIPATE, "participating in a swap", dict(A, what=("value", "accept", "calls:_create_contract") + AEXC)),
        ("verify", AS, "verify", VERIFY, "verifying a contract", dict(A, what=("value", "accept", "calls:coin_output_get") + AEXC)),
        ("redeem", AS, "redeem", REDEEM, "redeeming a contract", dict(A, what=("value", "accept", "calls:_claim_contract", "calls:coin_output_get") + AEXC)),
        ("refund", AS, "refund", REFUND, "refunding a contract", dict(A, what=("value", "accept", "calls:_claim_contract", "calls:coin_output_get") + AEXC)),
        ("create", AS, "_create_contract", CREATE, "creating a contract", dict(A, what=("value", "accept") + AEXC + DONE)),
        ("claim", AS, "_claim_contract", CLAIM, "claiming a contract", dict(A, what=("value", "accept") + AEXC + DONE)),
        ("contract.init", AC, "__init__", """
def f(self, coinoutput, unspent=True, current_timestamp=None):
    if not isinstance(coinoutput, CoinOutput):
        raise TypeError("")
    if not isinstance(coinoutput.condition, ConditionAtomicSwap):
        raise TypeError("")
    if not isinstance(unspent, bool):
        raise TypeError("")
    if current_timestamp is not None and not isinstance(current_timestamp, int):
        raise TypeError("")
    self._id = coinoutput.id
    self._condition = coinoutput.condition
    self._value = coinoutput.value
    self._unspent = unspent
    if current_timestamp is None or current_timestamp <= 0:
        current_timestamp = int(datetime.datetime.now().timestamp())
    self._current_timestamp = current_timestamp
""", "a contract", dict(B, what=("accept", "raises:TypeError", "fields:_id,_condition,_value,_unspent,_current_timestamp"))),
        ("contract.eq", AC, "__eq__", """
def f(self, other):
    if not isinstance(other, AtomicSwapContract):
        raise TypeError("")
    return self.unspent == other.unspent and self.outputid == other.outputid and self.amount == other.amount and self.condition.json() == other.condition.json()
""", "equality of contracts", dict(B, what=("value", "accept", "raises:TypeError"))),
        ("contract.ne", AC, "__ne__", "def f(self, other):\n    return not self.__eq__(other)", "inequality of contracts", dict(B)),
        ("contract.secret", AC, "verify_secret", "def f(self, secret):\n    return self._condition.hashed_secret == AtomicSwapSecretHash.from_secret(AtomicSwapSecret(value=secret))", "a matching secret", dict(B)),
        ("contract.output", AC, "coin_output", "def f(self):\n    return CoinOutput(value=self.amount, condition=self.condition, id=self.outputid)", "output of a contract", dict(B)),
    ] + [("contract.%s" % n, AC, n, "def f(self):\n    return self.%s" % x, "content of a contract", dict(B)) for n, x in (
        ("outputid", "_id"), ("sender", "_condition.sender"), ("receiver", "_condition.receiver"), ("secret_hash", "_condition.hashed_secret"), ("refund_timestamp", "_condition.lock_time"), ("amount", "_value"),
        ("unspent", "_unspent"), ("condition", "_condition"))]
    for c, fs in (("AtomicSwapInitiationResult", ("contract", "secret", "transaction", "submitted")), ("AtomicSwapParticipationResult", ("contract", "transaction", "submitted"))):
        rows.append(("result.%s" % c, WA + c, "__init__", "def f(self, %s):\n" % ", ".join(fs) + "".join("    self._%s = %s\n" % (x, x) for x in fs), "result of a swap", dict(WMOD, what=("accept", "fields:" + ",".join("_" + x for x in fs)))))
        rows += [("result.%s.%s" % (c, x), WA + c, x, "def f(self):\n    return self._%s" % x, "result of a swap", WMOD) for x in fs]
    table(ctx, rows)
