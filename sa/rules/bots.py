"""P28: 3Bot operations and fees."""

from ..core import *
from ..lib import *
from .minting import FULFILL
from .spend import SN, WA, WMOD, REFUND
from .table import table

TB = WA + "TFChainThreeBot"
TT = "tfchain.types.transactions.ThreeBot."

NEW = """
def f(self, months=1, names=None, addresses=None, key_index=None, source=None, refund=None):
    txn = tfchain.types.transactions.threebot_registration_new()
    txn.number_of_months = months
    txn.names = names
    txn.addresses = addresses
    if len(txn.names) == 0 and len(txn.addresses) == 0:
        raise ValueError("")
    balance = self._fund_txn(txn, source, refund)
    if key_index is None:
        txn.public_key = self._wallet.public_key_new()
    else:
        if not isinstance(key_index, int):
            raise TypeError("")
        own = self._wallet.addresses
        if key_index < 0 or key_index >= len(own):
            raise ValueError("")
        txn.public_key = self._wallet.key_pair_get(own[key_index]).public_key
    return self._sign_and_submit_txn(txn, balance)
"""

UPDATE = """
def f(self, identifier, months=0, names_to_add=None, names_to_remove=None, addresses_to_add=None, addresses_to_remove=None, source=None, refund=None):
    if months < 1 and names_to_add is None and names_to_remove is None and addresses_to_add is None and addresses_to_remove is None:
        raise ValueError("")
    txn = tfchain.types.transactions.threebot_record_update_new()
    txn.botid = identifier
    txn.number_of_months = months
    txn.names_to_add = names_to_add
    txn.names_to_remove = names_to_remove
    txn.addresses_to_add = addresses_to_add
    txn.addresses_to_remove = addresses_to_remove
    r = self._wallet.client.threebot.record_get(identifier)
    txn.parent_public_key = r.public_key
    if months == 0 and r.expiration <= self._wallet.client.blockchain_info_get().timestamp:
        raise tfchain.errors.ThreeBotInactive(identifier, r.expiration)
    return self._sign_and_submit_txn(txn, self._fund_txn(txn, source, refund))
"""

TRANSFER = """
def f(self, sender, receiver, names, source=None, refund=None):
    txn = tfchain.types.transactions.threebot_name_transfer_new()
    txn.sender_botid = sender
    txn.receiver_botid = receiver
    txn.names = names
    if len(txn.names) == 0:
        raise ValueError("")
    now = self._wallet.client.blockchain_info_get().timestamp
    r = self._wallet.client.threebot.record_get(sender)
    txn.sender_parent_public_key = r.public_key
    if r.expiration <= now:
        raise tfchain.errors.ThreeBotInactive(sender, r.expiration)
    r = self._wallet.client.threebot.record_get(receiver)
    txn.receiver_parent_public_key = r.public_key
    if r.expiration <= now:
        raise tfchain.errors.ThreeBotInactive(receiver, r.expiration)
    return self._sign_and_submit_txn(txn, self._fund_txn(txn, source, refund))
"""

FUND = """
def f(self, txn, source, refund):
    fee = self._wallet.client.minimum_miner_fee
    balance = self._wallet.balance
    inputs, rest, suggested = balance.fund(fee + txn.required_bot_fees, source)
    txn.coin_inputs = inputs
    if rest > 0:
        if refund is None:
            refund = ConditionTypes.unlockhash_new(self._wallet.address) if suggested is None else suggested
        else:
            refund = ConditionTypes.from_recipient(refund)
        txn.refund_coin_output_set(rest, refund)
    txn.transaction_fee = fee
    return balance
"""

SUBMIT = """
def f(self, txn, balance):
""" + FULFILL % dict(w="self._wallet") + """
    if ok:
        txn.id = self._wallet.client.transaction_put(txn)
        for ci in txn.coin_inputs:
            balance.output_add(ci.parent_output, confirmed=False, spent=True)
        mine = self._wallet.addresses + balance.addresses_multisig
        for i, co in enumerate(txn.coin_outputs):
            if str(co.condition.unlockhash) in mine:
                co.id = txn.coin_outputid_new(i)
                balance.output_add(co, confirmed=False, spent=False)
    return TransactionSendResult(txn, ok)
"""

BN = tuple(n for n in SN if n not in ("_transaction_put",)) + (
    "transaction_put", "_fund_txn", "_sign_and_submit_txn", "blockchain_info_get", "timestamp", "record_get", "expiration", "threebot", "required_bot_fees", "refund_coin_output_set", "transaction_fee",
    "number_of_months", "names", "addresses", "public_key", "public_key_new", "botid", "names_to_add", "names_to_remove", "addresses_to_add", "addresses_to_remove", "parent_public_key", "sender_botid",
    "receiver_botid", "sender_parent_public_key", "receiver_parent_public_key", "threebot_registration_new", "threebot_record_update_new", "threebot_name_transfer_new")
BEXC = ("raises:ValueError", "raises:TypeError", "raises:Exception", "raises:ThreeBotInactive")
SIGNED = ("stores:id", "calls:signature_requests_new", "calls:signature_fulfill", "calls:sign", "calls:input_hash_new", "calls:transaction_put", "calls:output_add", "before:signature_fulfill<is_fulfilled", "before:transaction_put<output_add")
OPS = ("calls:_fund_txn", "calls:_sign_and_submit_txn", "calls:record_get", "before:_fund_txn<_sign_and_submit_txn")

RATE = {144: """
def f(self):
    n = len(self._names)
    fees = 0 + Currency(value='90 TFT') + BotTransactionBaseClass.compute_monthly_bot_fees(self._number_of_months)
    if n > 1:
        fees += Currency(value='50 TFT') * (n - 1)
    return fees
""", 145: """
def f(self):
    fees = Currency(value=0)
    if self._number_of_months > 0:
        fees += BotTransactionBaseClass.compute_monthly_bot_fees(self._number_of_months)
    if len(self._addresses_to_add) > 0 or len(self._addresses_to_remove) > 0:
        fees += Currency(value='20 TFT')
    n = len(self._names_to_add)
    if n > 0:
        fees += Currency(value='50 TFT') * n
    return fees
""", 146: """
def f(self):
    return Currency(value='50 TFT') * len(self._names)
"""}


def stores(*a):
    return tuple("stores:" + x for x in a) + tuple("before:.%s<_fund_txn" % x for x in a if x not in ("public_key", "parent_public_key", "sender_parent_public_key", "receiver_parent_public_key")) + tuple(
        "before:.%s<_sign_and_submit_txn" % x for x in a)


def amount(a, b, asm):
    """sums of amounts: in any order, with nothing added"""
    p, q = addends(a), addends(b)
    if len(p) < 2 and len(q) < 2 and p == [a] and q == [b] or any(x.tag == "ite" for x in p + q):
        return None
    eq = Eq(amount)
    for x in p:
        y = next((y for y in q if eq.same(x, y, asm)), None)
        if y is None:
            return None
        q.remove(y)
    return True if not q else None


def addends(x):
    if x.tag == "op" and x.args[0] == "+":
        return [y for z in x.args[1:] for y in addends(z) if y is not const(0)]
    return [x]


def p28(ctx):
    B = dict(WMOD, opaque_names=BN)
    rows = [
        ("new", TB, "record_new", NEW, "registering a 3Bot", dict(B, what=("value", "accept", "calls:threebot_registration_new", "calls:public_key_new") + BEXC + OPS + stores("number_of_months", "names", "addresses", "public_key"))),
        ("update", TB, "record_update", UPDATE, "updating a 3Bot", dict(B, what=("value", "accept", "calls:threebot_record_update_new") + BEXC + OPS + stores(
            "botid", "number_of_months", "names_to_add", "names_to_remove", "addresses_to_add", "addresses_to_remove", "parent_public_key"))),
        ("transfer", TB, "name_transfer", TRANSFER, "transferring 3Bot names", dict(B, what=("value", "accept", "calls:threebot_name_transfer_new") + BEXC + OPS + stores(
            "sender_botid", "receiver_botid", "names", "sender_parent_public_key", "receiver_parent_public_key"))),
        ("fund", TB, "_fund_txn", FUND, "funding a 3Bot transaction", dict(WMOD, opaque_names=BN, what=("value", "accept", "calls:fund", "calls:refund_coin_output_set", "stores:coin_inputs", "stores:transaction_fee"))),
        ("submit", TB, "_sign_and_submit_txn", SUBMIT, "submitting a 3Bot transaction", dict(WMOD, opaque_names=tuple(n for n in BN if n != "_sign_and_submit_txn"), what=("value", "accept", "raises:Exception") + SIGNED)),
        ("fees.monthly", TT + "BotTransactionBaseClass", "compute_monthly_bot_fees", """
def f(months):
    fees = Currency(value='10 TFT') * months
    if months < 12:
        return fees
    if months < 24:
        return fees * 0.7
    return fees * 0.5
""", "monthly fees", dict(opaque_names=("__mul__", "times", "__init__"))),
    ] + [("fees.%d" % v, TT + "TransactionV%d" % v, "required_bot_fees", src, "fees of a 3Bot transaction", dict(opaque_names=("compute_monthly_bot_fees", "__mul__", "__add__", "__iadd__", "__radd__", "times", "plus", "__init__"), hook=amount))
         for v, src in RATE.items()]
    table(ctx, rows)
