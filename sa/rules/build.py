"""P16: recipients, locks, conditions and fulfillments are built as asked."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t
from .jsonfmt import TT, CT, FT, CR, PT, IO, TB, E20
from .names import grammar
from .table import table, find

MOD = dict(modules=(TT[:-1],))
JS = "tfchain.internal.jsutils."
DUR = r'^((?P<days>[\.\d]+?)d)?((?P<hours>[\.\d]+?)h)?((?P<minutes>[\.\d]+?)m)?((?P<seconds>[\.\d]+?)s)?$'


def p16(ctx):
    V = dict(MOD)
    A = dict(MOD, what=("value", "accept", "raises:TypeError", "raises:ValueError"))
    rows = [
        ("recipient", None, CT + "from_recipient", """
def f(recipient, lock=None):
    if isinstance(recipient, ConditionBaseClass):
        c = recipient
    elif recipient is None:
        c = ConditionNil()
    elif isinstance(recipient, (UnlockHash, str)):
        c = ConditionUnlockHash(unlockhash=recipient)
    elif isinstance(recipient, (bytes, bytearray)):
        c = ConditionUnlockHash(unlockhash=recipient.hex())
    elif isinstance(recipient, list):
        c = ConditionMultiSignature(unlockhashes=recipient, min_nr_sig=len(recipient))
    elif isinstance(recipient, tuple):
        if len(recipient) != 2:
            raise ValueError('')
        if isinstance(recipient[0], int):
            c = ConditionMultiSignature(unlockhashes=recipient[1], min_nr_sig=recipient[0])
        else:
            c = ConditionMultiSignature(unlockhashes=recipient[0], min_nr_sig=recipient[1])
    else:
        raise TypeError('')
    if lock is not None:
        c = ConditionLockTime(lock=lock, condition=c)
    return c
""", "condition for a recipient", A),
        ("nil_new", None, CT + "nil_new", "def f():\n    return ConditionNil()", "nil condition", V),
        ("unlockhash_new", None, CT + "unlockhash_new", "def f(unlockhash=None):\n    return ConditionUnlockHash(unlockhash=unlockhash)", "unlock hash condition", V),
        ("atomic_swap_new", None, CT + "atomic_swap_new", """
def f(sender=None, receiver=None, hashed_secret=None, lock_time=None):
    return ConditionAtomicSwap(sender=sender, receiver=receiver, hashed_secret=hashed_secret, lock_time=lock_time)
""", "atomic swap condition", V),
        ("locktime_new", None, CT + "locktime_new", "def f(lock=None, condition=None):\n    return ConditionLockTime(lock=lock, condition=condition)", "time lock", V),
        ("multi_signature_new", None, CT + "multi_signature_new", """
def f(min_nr_sig=0, unlockhashes=None):
    return ConditionMultiSignature(unlockhashes=unlockhashes, min_nr_sig=min_nr_sig)
""", "multi-signature condition", V),
        ("output_lock_new", None, CT + "output_lock_new", "def f(value):\n    return OutputLock(value=value)", "lock", V),
        ("lock.init", CT + "OutputLock", "__init__", """
def f(self, value=None, current_timestamp=None):
    if current_timestamp is None:
        current_timestamp = int(datetime.datetime.now().timestamp())
    elif not isinstance(current_timestamp, int):
        raise TypeError('')
    if value is None:
        self._value = 0
    elif isinstance(value, OutputLock):
        self._value = value.value
    elif isinstance(value, int):
        if value < 0:
            raise ValueError('')
        self._value = int(value)
    elif isinstance(value, str):
        s = value.lstrip()
        if s[0] == '+':
            self._value = current_timestamp + tfchain.internal.jsutils.duration.fromString(s[1:])
        else:
            self._value = tfchain.internal.jsutils.jsdatetime.fromString(s)
    elif isinstance(value, datetime.timedelta):
        self._value = current_timestamp + int(value.total_seconds())
    elif isinstance(value, datetime.datetime):
        self._value = int(value.timestamp())
    else:
        raise TypeError('')
""", "lock value", dict(MOD, what=("accept", "fields:_value", "raises:TypeError", "raises:ValueError"))),
        ("lock.int", CT + "OutputLock", "__int__", "def f(self):\n    return self._value", "integer form of a lock", V),
        ("lock.value", CT + "OutputLock", "value", "def f(self):\n    return self._value", "value of a lock", V),
        ("lock.kind", CT + "OutputLock", "is_timestamp", "def f(self):\n    return self._value >= 500000000", "kind of a lock", V),
        ("lock.check", CT + "OutputLock", "locked_check", """
def f(self, height, time):
    if self._value >= 500000000:
        return time < self._value
    return height < self._value
""", "lock still in force", V),
        ("lock.text", CT + "OutputLock", "__str__", """
def f(self):
    if self._value >= 500000000:
        return tfchain.internal.jsutils.jstime.epoch2HRDateTime(self._value)
    return str(self._value)
""", "text of a lock", V),
        ("condition.unwrap", CT + "ConditionBaseClass", "unwrap", "def f(self):\n    return self", "innermost condition", V),
        ("condition.lock", CT + "ConditionBaseClass", "lock", "def f(self):\n    return OutputLock()", "lock of a condition", V),
        ("locktime.unwrap", CT + "ConditionLockTime", "unwrap", "def f(self):\n    return self.condition", "innermost condition", V),
        ("locktime.wrap", CT + "ConditionLockTime", "condition", """
def f(self, value):
    if value is None:
        self._condition = None
    elif not isinstance(value, ConditionBaseClass):
        raise TypeError('')
    elif value.type not in (0, 1, 4):
        raise ValueError('')
    else:
        self._condition = value
""", "condition under a time lock", dict(MOD, setter=True, what=("accept", "fields:_condition", "raises:TypeError", "raises:ValueError"))),
        ("locktime.inner", CT + "ConditionLockTime", "condition", "def f(self):\n    return ConditionUnlockHash() if self._condition is None else self._condition", "condition under a time lock", V),
        ("locktime.set", CT + "ConditionLockTime", "lock", "def f(self, value):\n    self._lock = OutputLock(value=value)", "lock of a time lock", dict(MOD, setter=True, what=("accept", "fields:_lock"))),
        ("locktime.get", CT + "ConditionLockTime", "lock", "def f(self):\n    return OutputLock() if self._lock is None else self._lock", "lock of a time lock", V),
        ("swap.lock", CT + "ConditionAtomicSwap", "lock_time", """
def f(self, value):
    if value is None:
        self._lock_time = 0
        return
    k = OutputLock(value=value)
    if not k.is_timestamp:
        raise TypeError('')
    self._lock_time = k.value
""", "refund time of an atomic swap", dict(MOD, setter=True, opaque_names=("is_timestamp",), what=("accept", "fields:_lock_time", "raises:TypeError"))),
        ("secret.hash", CT + "AtomicSwapSecretHash", "from_secret", """
def f(cls, secret):
    if not isinstance(secret, AtomicSwapSecret):
        raise TypeError('')
    return cls(value=hashlib.sha256(secret.value).digest())
""", "hash of an atomic-swap secret", dict(A, kind="classmethod")),
        ("multisig.add", CT + "ConditionMultiSignature", "add_unlockhash", """
def f(self, uh):
    if uh is None:
        a = UnlockHash()
    elif isinstance(uh, UnlockHash):
        a = uh
    elif isinstance(uh, str):
        a = UnlockHash.from_json(uh)
    else:
        raise TypeError('')
    self._unlockhashes.append(a)
""", "owner added", dict(MOD, opaque_names=("from_json",), what=("accept", "fields:_unlockhashes", "raises:TypeError"))),
        ("fulfillment.for", None, FT + "from_condition", """
def f(condition):
    if condition is None:
        return FulfillmentSingleSignature()
    if isinstance(condition, ConditionAtomicSwap):
        return FulfillmentAtomicSwap()
    c = condition.unwrap()
    if isinstance(c, (ConditionUnlockHash, ConditionNil)):
        return FulfillmentSingleSignature()
    if isinstance(c, ConditionMultiSignature):
        return FulfillmentMultiSignature()
    raise TypeError('')
""", "fulfillment for a condition", dict(A, opaque_names=("unwrap",))),
        ("fulfillment.single", None, FT + "single_signature_new", "def f(pub_key=None, signature=None):\n    return FulfillmentSingleSignature(pub_key=pub_key, signature=signature)", "fulfillment", V),
        ("fulfillment.swap", None, FT + "atomic_swap_new", """
def f(pub_key=None, signature=None, secret=None):
    return FulfillmentAtomicSwap(pub_key=pub_key, signature=signature, secret=secret)
""", "fulfillment", V),
        ("fulfillment.multi", None, FT + "multi_signature_new", "def f(pairs=None):\n    return FulfillmentMultiSignature(pairs=pairs)", "fulfillment", V),
        ("duration", JS + "Duration", "fromString", """
def f(self, v):
    if v in [0, '0', None, '']:
        return 0
    if isinstance(v, str):
        v = v.replace("'", '').replace('"', '').strip()
        if v.isdigit():
            return int(v)
        m = self._RE.match(v)
        if m is None:
            raise ValueError('')
        return int(datetime.timedelta(**{n: float(p) for n, p in m.groupdict().items() if p}).total_seconds())
    if isinstance(v, int):
        return v
    raise ValueError('')
""", "duration read from text", dict(modules=("tfchain.internal",), what=("value", "accept", "raises:ValueError"))),
        ("duration.init", JS + "Duration", "__init__", "def f(self, default=None):\n    self._RE = re.compile(%r)" % DUR, "form of a duration",
         dict(modules=("tfchain.internal",), what=("accept", "fields:_RE"))),
        ("delta", JS + "Time_", "getDeltaTime", """
def f(self, txt):
    txt = txt.strip()
    u = txt[-1]
    if u not in {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800, 'M': 2628000, 'Y': 31536000}.keys():
        raise RuntimeError('')
    return int(float(txt[:-1]) * {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800, 'M': 2628000, 'Y': 31536000}[u])
""", "time difference read from text", dict(modules=("tfchain.internal",), what=("value", "accept"))),
        ("delta.epoch", JS + "Time_", "getEpochDeltaTime", """
def f(self, txt):
    if txt is None or str(txt).strip() == '0':
        return int(time.time())
    return int(time.time()) + self.getDeltaTime(txt)
""", "time difference read from text", dict(modules=("tfchain.internal",), opaque_names=("getDeltaTime",), what=("value", "accept"))),
        ("date", JS + "DateTime", "fromString", """
def f(self, v):
    if v is None:
        return self.default_get()
    if isinstance(v, str):
        v = v.replace("'", '').replace('"', '').strip()
        if v.strip() in ['0', '', 0]:
            return 0
        if '+' in v or '-' in v:
            return tfchain.internal.jsutils.jstime.getEpochDeltaTime(v)
        if ':' in v:
            d, c = v.split(' ', 1)
            c = c.strip()
            if ':' not in c:
                c, cf = '00:00:00', '%H:%M:%S'
            else:
                half = 'am' in c.lower() or 'pm' in c.lower()
                n = len(c.split(':'))
                if n == 2:
                    cf = '%I%p:%M' if half else '%H:%M'
                elif n == 3:
                    cf = '%I%p:%M:%S' if half else '%H:%M:%S'
                else:
                    raise ValueError('')
        else:
            d, c, cf = v, '00:00:00', '%H:%M:%S'
        if '/' not in d:
            raise ValueError('')
        p = d.split('/')
        if len(p) == 2:
            df = '%Y/%m/%d'
            d = '%s/%s' % (tfchain.internal.jsutils.jstime.epoch2HRDate(tfchain.internal.jsutils.jstime.epoch).split('/')[0], d.strip())
        elif len(p) == 3:
            a, b, e = len(p[0].strip()), len(p[1].strip()), len(p[2].strip())
            if a == 4 and (b == 2 or b == 1) and (e == 2 or e == 1):
                df = '%Y/%m/%d'
            elif e == 4 and (b == 2 or b == 1) and (a == 2 or a == 1):
                df = '%d/%m/%Y'
            elif (e == 2 or e == 1) and (b == 2 or b == 1) and (a == 2 or a == 1):
                df = '%y/%m/%d'
            else:
                raise ValueError('')
        else:
            raise ValueError('')
        return int(time.mktime(time.strptime(d + ' ' + c, df + ' ' + cf)))
    if isinstance(v, int):
        return v
    raise ValueError('')
""", "date read from text", dict(modules=("tfchain.internal",), opaque_names=("getEpochDeltaTime", "epoch2HRDate", "default_get", "epoch"), what=("value", "accept", "raises:ValueError"))),
        ("date.text", JS + "Time_", "epoch2HRDateTime", """
def f(self, epoch, local=True):
    e = float(epoch)
    return time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(e) if local else time.gmtime(e))
""", "text of a time", dict(modules=("tfchain.internal",))),
        ("date.day", JS + "Time_", "epoch2HRDate", """
def f(self, epoch, local=True):
    e = float(epoch)
    return time.strftime('%Y/%m/%d', time.localtime(e) if local else time.gmtime(e))
""", "text of a date", dict(modules=("tfchain.internal",))),
    ]
    table(ctx, rows)
