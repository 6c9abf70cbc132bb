"""P32: what is printed for people is what is held."""

from ..core import *
from ..lib import *
from .spend import WA, WMOD
from .table import table

CL = "tfchain.TFChainClient."
TY = "tfchain.types."
CMOD = ("tfchain.TFChainClient",)

MONEY = """
def f(self):
    out = "{} available and {} locked".format(self.available.str(with_unit=True), self.locked.str(with_unit=True))
    a = self.unconfirmed
    b = self.unconfirmed_locked
    if a > 0 or b > 0:
        out += "\\nUnconfirmed: {} available {} locked".format(a.str(with_unit=True), b.str(with_unit=True))
    c = Currency(value=sum([co.value for co in self._outputs_unconfirmed_spent.values()]))
    if c > 0:
        out += "\\nUnconfirmed Balance Deduction: -{}".format(c.str(with_unit=True))
    return out
"""

BALANCE = """
def f(self):
    if self.chain_height > 0 and self.chain_time > 0:
        out = "wallet balance on height {} at {}\\n".format(self.chain_height, epoch2HRDateTime(self.chain_time))
    else:
        out = "wallet balance at an unknown time\\n"
    return out + self._human_readable_balance()
"""

MULTISIG = """
def f(self):
    out = "MultiSignature ({}-of-{}) Wallet {}:\\n".format(self.signature_count, len(self.owners), self.address)
    out += "Owners: " + ", ".join(self.owners) + "\\n"
    return out + super()._human_readable_balance()
"""

WALLETS = """
def f(self):
    out = super().__repr__()
    for w in self.wallets.values():
        if w.active:
            out += "\\n\\n" + w._human_readable_balance()
    return out
"""

CHAIN = """
def f(self):
    return "Block {} at height {}, published on {}, is the last known block.".format(self.blockid, self.height, epoch2HRDateTime(self.timestamp))
"""

FOUND = """
def f(self):
    return "Found {} transaction(s) and {} multisig address(es) for {}".format(len(self._transactions), len(self._multisig_addresses), str(self._unlockhash))
"""

CONTRACT = '''
def f(self):
    if self.unspent:
        t = tfchain.internal.jsutils.jstime.epoch2HRDateTime(self.refund_timestamp)
        if self._current_timestamp >= self.refund_timestamp:
            d = "Refund is available since {}.".format(t)
        else:
            d = "Refund available at {} (in: {}).".format(t, tfchain.internal.jsutils.duration.toString(self.refund_timestamp - self._current_timestamp))
    else:
        d = "Spent and no longer available."
    return """
        Atomic Swap Contract {}:
        {}
        Value: {}
        Sender: {}
        Receiver: {}
        Secret Hash: {}
        """.format(str(self.outputid), d, self.amount.str(with_unit=True), str(self.sender), str(self.receiver), str(self.secret_hash)).strip()
'''

DURATION = """
def f(self, val):
    n = self.clean(val)
    if n == 0:
        return ""
    days = n // 86400
    hours = (n - days*86400)//3600
    minutes = (n - days*86400 - hours*3600)//60
    seconds = n - days*86400 - hours*3600 - minutes*60
    out = ""
    out = out + str(days) + "d" if days > 0 else out
    out = out + str(hours) + "h" if hours > 0 else out
    out = out + str(minutes) + "m" if minutes > 0 else out
    return out + str(seconds) + "s" if seconds > 0 else out
"""

DATE = """
def f(self, val, local=True):
    n = self.clean(val)
    if n == 0:
        return ""
    return tfchain.internal.jsutils.jstime.%s(n, local=local)
"""

SELF_ID = """
def f(self):
    return str(self.id)
"""

TXN = """
def f(self):
    s = "transaction v{}".format(self.version)
    if self._id:
        s += " {}".format(self.id)
    return s
"""

LOCK = """
def f(self):
    if self.is_timestamp:
        return tfchain.internal.jsutils.jstime.epoch2HRDateTime(self._value)
    return str(self._value)
"""

VALUE = """
def f(self):
    return self.value
"""


def p32(ctx):
    W = dict(modules=WMOD)
    C = dict(modules=CMOD)
    J = dict(modules=("tfchain.internal.jsutils",), opaque_names=("clean",))
    H = dict(opaque_names=("_human_readable_balance", "str"))
    js = "tfchain.internal.jsutils."
    rows = [
        ("balance.money", WA + "WalletBalance", "_human_readable_balance", MONEY, "the report shows the available and the locked amount, the unconfirmed ones when there are, and what unconfirmed spending takes off", W),
        ("balance.report", WA + "WalletBalance", "__repr__", BALANCE, "the report is headed by the height and time it was made at, when these are known", dict(W, opaque_names=("_human_readable_balance",))),
        ("balance.multisig", WA + "MultiSigWalletBalance", "_human_readable_balance", MULTISIG, "the report of a multi-signature wallet names the number of signatures, the owners and the address", dict(W, opaque=(WA + "WalletBalance._human_readable_balance", WA + "MultiSigWalletBalance.address"))),
        ("balance.wallets", WA + "WalletsBalance", "__repr__", WALLETS, "the report of a wallet includes every active multi-signature wallet", dict(W, opaque_names=("_human_readable_balance",), opaque=(WA + "WalletBalance.__repr__",))),
        ("chain", CL + "ExplorerBlockchainInfo", "__repr__", CHAIN, "the chain report shows the last block, its height and time", C),
        ("unlockhash", CL + "ExplorerUnlockhashResult", "__repr__", FOUND, "the report of an address counts its transactions and its multi-signature addresses", C),
        ("block", CL + "ExplorerBlock", "__str__", SELF_ID, "a block is printed as its identifier", C),
        ("payout", CL + "ExplorerMinerPayout", "__str__", SELF_ID, "a payout is printed as its identifier", C),
        ("contract", TY + "AtomicSwap.AtomicSwapContract", "__repr__", CONTRACT, "the report of a contract shows whether and when it can be refunded, its value, its two parties and its secret hash", dict(modules=(TY + "AtomicSwap",))),
        ("duration", js + "Duration", "toString", DURATION, "a duration is printed as days, hours, minutes and seconds", J),
        ("date", js + "Date", "toString", DATE % "epoch2HRDate", "a date is printed as its day", J),
        ("datetime", js + "DateTime", "toString", DATE % "epoch2HRDateTime", "a time is printed as its day and time", J),
        ("transaction", TY + "transactions.Standard.TransactionV1", "__str__", TXN, "a transaction is printed as its version and its identifier, when it has one", dict(modules=(TY + "transactions.Base", TY + "transactions.Standard"))),
        ("lock", TY + "ConditionTypes.OutputLock", "__str__", LOCK, "a lock is printed as its height or its time", dict(modules=(TY + "ConditionTypes",))),
    ]
    for n, m in (("NetworkAddress", "__str__"), ("NetworkAddress", "__repr__"), ("BotName", "__str__"), ("BotName", "__repr__")):
        rows.append(("%s.%s" % (n, m), TY + "ThreeBot." + n, m, VALUE, "it is printed as its text", dict(modules=(TY + "ThreeBot",))))
    table(ctx, rows)
