"""P29: ERC20 operations of the wallet."""

from ..core import *
from ..lib import *
from .bots import FUND, SIGNED, SUBMIT
from .spend import SN, WA, WMOD
from .table import table

ER = WA + "TFChainERC20"
V210 = "tfchain.types.transactions.ERC20.TransactionV210"

SEND = """
def f(self, address, amount, source=None, refund=None):
    amount = Currency(value=amount)
    if amount <= 0:
        raise ValueError("")
    txn = tfchain.types.transactions.erc20_convert_new()
    txn.address = ERC20Address(value=address)
    txn.value = amount
    return self._sign_and_submit_txn(txn, self._fund_txn(txn, source, refund, txn.value))
"""

WHICH = """
    if value is None:
        pk = %(default)s
    elif isinstance(value, (str, UnlockHash)):
        try:
            pk = self._wallet.key_pair_get(value).public_key
        except KeyError as x:
            raise tfchain.errors.%(error)s(UnlockHash.from_json(value) if isinstance(value, str) else value) from x
    elif isinstance(value, int) and not isinstance(value, bool):
        own = self._wallet.addresses
        if value < 0 or value >= len(own):
            raise ValueError("")
        pk = self._wallet.key_pair_get(own[value]).public_key
    else:
        raise ValueError("")
"""

REGISTER = """
def f(self, value=None, source=None, refund=None):
""" + WHICH % dict(default="self._wallet.public_key_new()", error="ERC20RegistrationForbidden") + """
    txn = tfchain.types.transactions.erc20_address_registration_new()
    txn.public_key = pk
    return self._sign_and_submit_txn(txn, self._fund_txn(txn, source, refund, txn.registration_fee))
"""

GET = """
def f(self, value=None):
""" + WHICH % dict(default="self._wallet.key_pair_get(self._wallet.address).public_key", error="AddressNotInWallet") + """
    return self._wallet.client.erc20.address_get(pk.unlockhash)
"""

ALL = """
def f(self):
    out = []
    self._wallet._key_scan()
    for a in self._wallet.addresses:
        try:
            out.append(self._wallet.client.erc20.address_get(a))
        except tfchain.errors.ExplorerNoContent:
            pass
    return out
"""

EN = tuple(n for n in SN if n not in ("_transaction_put",)) + (
    "transaction_put", "_fund_txn", "_sign_and_submit_txn", "refund_coin_output_set", "transaction_fee", "erc20_convert_new", "erc20_address_registration_new", "registration_fee", "value", "public_key",
    "public_key_new", "address_get", "from_json", "_key_scan", "addresses")
EEXC = ("raises:ValueError", "raises:TypeError", "raises:ERC20RegistrationForbidden", "raises:AddressNotInWallet", "raises:Exception")
OPS = ("calls:_fund_txn", "calls:_sign_and_submit_txn", "before:_fund_txn<_sign_and_submit_txn")


def p29(ctx):
    E = dict(WMOD, opaque_names=EN)
    rows = [
        ("send", ER, "coins_send", SEND, "converting coins to ERC20", dict(E, what=("value", "accept", "calls:erc20_convert_new", "stores:address", "stores:value", "before:.value<_fund_txn", "before:.address<_sign_and_submit_txn") + EEXC + OPS)),
        ("register", ER, "address_register", REGISTER, "registering an ERC20 address", dict(E, what=("value", "accept", "calls:erc20_address_registration_new", "calls:public_key_new", "stores:public_key",
                                                                                                     "before:.public_key<_sign_and_submit_txn") + EEXC + OPS)),
        ("get", ER, "address_get", GET, "looking up an ERC20 address", dict(E, what=("value", "accept", "calls:address_get") + EEXC)),
        ("all", ER, "addresses_get", ALL, "looking up all ERC20 addresses", dict(E, what=("value", "accept", "calls:address_get", "calls:_key_scan"))),
        ("fund", ER, "_fund_txn", FUND.replace("source, refund)", "source, refund, amount)", 1).replace("txn.required_bot_fees", "amount"), "funding an ERC20 transaction",
         dict(WMOD, opaque_names=tuple(n for n in EN if n != "_fund_txn"), what=("value", "accept", "calls:fund", "calls:refund_coin_output_set", "stores:coin_inputs", "stores:transaction_fee"))),
        ("submit", ER, "_sign_and_submit_txn", SUBMIT, "submitting an ERC20 transaction", dict(WMOD, opaque_names=tuple(n for n in EN if n != "_sign_and_submit_txn"), what=("value", "accept", "raises:Exception") + SIGNED)),
        ("fee.init", V210, "__init__", "def f(self):\n    self._registration_fee = Currency(value='10 TFT')", "registration fee", dict(opaque_names=("__init__",), what=("fields:_registration_fee",))),
        ("fee.get", V210, "registration_fee", "def f(self):\n    return self._registration_fee", "registration fee", dict()),
        ("fee.set", V210, "registration_fee", """
def f(self, txfee):
    if txfee is not None and Currency(value=txfee) != self._registration_fee:
        raise ValueError("")
""", "registration fee", dict(setter=True, opaque_names=("__init__", "__ne__"), what=("accept", "raises:ValueError", "fields:_registration_fee"))),
    ]
    table(ctx, rows)
