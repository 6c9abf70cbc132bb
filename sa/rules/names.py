"""P15: texts with a grammar - 3Bot names, network addresses, ERC20 addresses, amounts."""

import ast

from ..core import *
from ..lib import *
from ..regex import equivalent
from ..terms import *
from ..terms import T, t
from .jsonfmt import TT, CT, FT, CR, PT, IO, TB, E20
from .table import table, find

MOD = dict(modules=(TT[:-1],))
NAME = r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*$'
HOST = (r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))'
        r'\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})$')


def pattern_of(ctx, x):
    """the pattern a term compiles (re.compile(p), or a class/module constant holding one)"""
    if x.tag == "a" and x.args[0].tag == "cls":
        c = ctx.repo.classes.get(x.args[0].args[0])
        for q in ctx.repo.mro(c.qual) if c is not None else ():
            d = ctx.repo.classes.get(q)
            if d is not None and x.args[1] in d.attrs:
                return pattern_of(ctx, ctx.interp(["tfchain"])._const_expr(d.module, d.attrs[x.args[1]], d))
        return None
    if x.tag == "call" and x.args[0].tag == "ext" and x.args[0].args[0] == "re.compile" and len(x.args[1]) == 1 and is_const(x.args[1][0]):
        return cval(x.args[1][0])
    return None


def grammar(ctx):
    """applications of a compiled pattern become (operation, pattern, text); patterns of the same language are one"""
    reps = []

    def canon(p):
        for q in reps:
            if equivalent(p, q):
                return q
        reps.append(p)
        return p

    def go(y):
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] in ("match", "fullmatch", "search"):
            p = pattern_of(ctx, y.args[0].args[0])
            if p is not None:
                return t("rx", y.args[0].args[1], canon(p), tuple(subst(z, go) for z in y.args[1]))
        if y.tag == "call" and y.args[0].tag == "ext" and y.args[0].args[0] in ("re.match", "re.fullmatch", "re.search") and is_const(y.args[1][0]):
            return t("rx", y.args[0].args[0][3:], canon(cval(y.args[1][0])), tuple(subst(z, go) for z in y.args[1][1:]))
        if y.tag == "isinst" or y.tag == "is":
            return None
        return None

    def fix(x):
        x = subst(x, go)
        # a match object is true
        return subst(x, lambda y: mk_not(t("rxok", y.args[0])) if y.tag == "is" and y.args[1] is NONE and y.args[0].tag == "rx" else
                     t("rxok", y) if y.tag == "rx" else None)
    return fix


def p15(ctx):
    g = grammar(ctx)
    rows = [
        ("name.set", TB + "BotName", "value", """
def f(self, value):
    if value is None:
        self._value = None
    elif isinstance(value, str):
        if len(value) > 63:
            raise ValueError('')
        if re.compile(%r).fullmatch(value) is None:
            raise ValueError('')
        self._value = value
    elif isinstance(value, BotName):
        self._value = value._value
    else:
        raise TypeError('')
""" % NAME, "3Bot name", dict(MOD, setter=True, what=("accept", "stores:_value", "raises:ValueError", "raises:TypeError"), pre=g)),
        ("address.set", TB + "NetworkAddress", "value", """
def f(self, value):
    if value is None:
        self._type = NetworkAddress.Type.HOSTNAME
        self._address = bytearray()
    elif isinstance(value, str) and re.compile(%r).fullmatch(value):
        if len(value) > 63:
            raise ValueError('')
        self._type = NetworkAddress.Type.HOSTNAME
        self._address = bytearray(value.encode('utf-8'))
    elif isinstance(value, (str, int)):
        a = ipaddress.ip_address(value)
        if isinstance(a, ipaddress.IPv4Address):
            self._type = NetworkAddress.Type.IPV4
            self._address = a.packed
        elif isinstance(a, ipaddress.IPv6Address):
            if a.packed[:12] == b'\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\xff\\xff':
                self._type = NetworkAddress.Type.IPV4
                self._address = a.packed[12:]
            else:
                self._type = NetworkAddress.Type.IPV6
                self._address = a.packed
        else:
            raise ValueError('')
    elif isinstance(value, NetworkAddress):
        self._address = value._address[:]
        self._type = value._type
    else:
        raise TypeError('')
""" % HOST, "network address", dict(MOD, setter=True, what=("accept", "fields:_address,_type", "raises:ValueError", "raises:TypeError"), pre=g, hook=_addr)),
        ("erc20.valid", E20 + "ERC20Address", "is_valid_value", """
def f(value):
    if isinstance(value, str):
        if value.startswith('0x') or value.startswith('0X'):
            value = value[2:]
        if len(value) != 40:
            return False
        return all(c in '0123456789abcdefABCDEF' for c in value)
    if isinstance(value, (bytes, bytearray)):
        return len(value) == 20
    if isinstance(value, ERC20Address):
        return ERC20Address.is_valid_value(value.value)
    return False
""", "valid ERC20 address", dict(MOD, kind="staticmethod", opaque=(E20 + "ERC20Address.is_valid_value",))),
        ("currency.text", PT + "Currency", "str", """
def f(self, with_unit=False):
    s = '{:.9f}'.format(self.value).rstrip('0 ')
    if s[-1] == '.':
        s = s[:-1]
    if len(s) == 0:
        s = '0'
    if with_unit:
        s = s + ' TFT'
    return s
""", "text of an amount", MOD),
        ("currency.json", PT + "Currency", "json", "def f(self):\n    return str(int(self))", "JSON form of an amount", dict(MOD, opaque_names=("__int__",))),
        ("currency.str", PT + "Currency", "__str__", "def f(self):\n    return self.str(with_unit=False)", "str of an amount", dict(MOD)),
        ("currency.repr", PT + "Currency", "__repr__", "def f(self):\n    return self.str(with_unit=True)", "repr of an amount", dict(MOD)),
    ]
    rows += [
        ("currency.set", PT + "Currency", "value", """
def f(self, value):
    if value is None:
        self._value = None
        return
    if isinstance(value, Currency):
        self._value = value.value
        return
    if not isinstance(value, (int, str, decimal.Decimal)):
        raise TypeError('')
    if isinstance(value, str):
        value = value.upper().strip()
        if len(value) >= 4 and value[-3:] == 'TFT':
            value = value[:-3].rstrip()
    d = decimal.Decimal(value)
    sign, _, exp = d.as_tuple()
    if exp < -9:
        raise tfchain.errors.CurrencyPrecisionOverflow(d)
    if sign != 0:
        raise tfchain.errors.CurrencyNegativeValue(d)
    self._value = d
""", "amount", dict(MOD, setter=True, what=("accept", "fields:_value", "raises:CurrencyPrecisionOverflow", "raises:CurrencyNegativeValue", "raises:TypeError"))),
        ("currency.get", PT + "Currency", "value", "def f(self):\n    return decimal.Decimal() if self._value is None else self._value", "amount", MOD),
        ("name.get", TB + "BotName", "value", "def f(self):\n    return '' if self._value is None else self._value", "name", MOD),
        ("address.get", TB + "NetworkAddress", "value", """
def f(self):
    if self._type == NetworkAddress.Type.HOSTNAME:
        return self._address.decode('utf-8')
    return str(ipaddress.ip_address(self._address))
""", "network address", MOD),
        ("data.set", PT + "BinaryData", "value", """
def f(self, value):
    if isinstance(value, BinaryData):
        value = value.value
    elif value is None:
        value = bytearray()
    elif isinstance(value, str):
        value = self._from_str(value)
    elif isinstance(value, bytes):
        value = bytearray(value)
    elif not isinstance(value, bytearray):
        raise TypeError('')
    if self._fixed_size is not None and len(value) != 0 and len(value) != self._fixed_size:
        raise ValueError('')
    self._value = value
""", "binary data", dict(MOD, setter=True, what=("accept", "fields:_value", "raises:TypeError", "raises:ValueError"))),
        ("data.init", PT + "BinaryData", "__init__", """
def f(self, value=None, fixed_size=None, strencoding=None):
    if strencoding is not None and not isinstance(strencoding, str):
        raise TypeError('')
    if strencoding is None or strencoding.lower().strip() == 'hex':
        self._from_str = lambda s: bytearray.fromhex(s)
        self._to_str = lambda v: v.hex()
    elif strencoding.lower().strip() == 'base64':
        self._from_str = lambda s: bytearray(base64.b64decode(s))
        self._to_str = lambda v: base64.b64encode(v).decode()
    elif strencoding.lower().strip() == 'hexprefix':
        self._from_str = lambda s: bytearray.fromhex(s[2:] if (s.startswith('0x') or s.startswith('0X')) else s)
        self._to_str = lambda v: '0x' + v.hex()
    else:
        raise TypeError('')
    if fixed_size is not None:
        if not isinstance(fixed_size, int) or fixed_size < 0:
            raise TypeError('')
    self._strencoding = strencoding
    self._fixed_size = None if fixed_size == 0 else fixed_size
    self.value = value
    if fixed_size == 0:
        self._fixed_size = len(self.value)
""", "binary data", dict(opaque=(PT + "BinaryData.value",), props=False, what=("accept", "fields:_strencoding,_fixed_size,_to_str,_from_str,value", "raises:TypeError"))),
    ]
    table(ctx, rows)


def _addr(a, b, asm):
    """an empty byte array that a text's bytes are appended to is the byte array of those bytes"""
    def n(x):
        if x.tag == "extend" and x.args[0].tag == "call" and x.args[0].args[0].tag == "b" and x.args[0].args[0].args[0] == "bytearray" and not x.args[0].args[1]:
            return t("call", t("b", "bytearray"), (x.args[1],), ())
        return x
    if a.tag == "ite" or b.tag == "ite":
        return None
    x, y = n(a), n(b)
    if x is not a or y is not b:
        return x is y
    return None
