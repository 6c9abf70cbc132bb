"""Value types: P04 currency invariant, P05 currency arithmetic, P06 currency scale, P07 fixed-size data."""

from ..core import *
from ..core import simplify, rename, short
from ..logic import Logic
from ..terms import *
from ..terms import T, t
from .encoding import isint, strip_int, to_bytes_form

M = "tfchain.types.PrimitiveTypes"
CUR, BST, BIN = M + ".Currency", M + ".Blockstake", M + ".BinaryData"
ERR = "tfchain.errors."
V = var("value")


def _methods(ctx, cls):
    c = ctx.repo.classes.get(cls)
    ctx.need(c is not None, "class %s not found" % cls)
    seen, out = set(), []
    for tab in (c.methods, c.getters, c.setters):
        for f in tab.values():
            if f.qual not in seen:
                seen.add(f.qual)
                out.append(f)
    return out


def _decimal_of(x):
    """x is Decimal(e): e"""
    if x.tag == "call" and x.args[0].tag == "ext" and x.args[0].args[0] == "decimal.Decimal" and len(x.args[1]) == 1:
        return x.args[1][0]
    return None


def _canon_decimal(d):
    """rewrite the ways to look at sign / exponent of decimal d into EXP<d> and NEG<d>"""
    EXP, NEG = var("EXP"), var("NEG")

    def go(y):
        if y.tag == "i" and y.args[0].tag == "call" and y.args[0].args[0].tag == "a" and y.args[0].args[0].args[1] == "as_tuple" \
                and y.args[0].args[0].args[0] is d and is_const(y.args[1]):
            if cval(y.args[1]) == 2 or cval(y.args[1]) == -1:
                return EXP
            if cval(y.args[1]) == 0:
                return t("b01", NEG)
        if y.tag == "a" and y.args[1] in ("exponent", "sign") and y.args[0].tag == "call" and y.args[0].args[0].tag == "a" \
                and y.args[0].args[0].args[1] == "as_tuple" and y.args[0].args[0].args[0] is d:
            return EXP if y.args[1] == "exponent" else t("b01", NEG)
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[0] is d and y.args[0].args[1] == "is_signed":
            return NEG
        if y.tag == "lt" and y.args[0] is d and (y.args[1] is const(0) or _zero(y.args[1])):
            return NEG
        return None

    def fix(x):
        x = subst(x, go)

        def b01(y):
            if y.tag == "eq" and any(z.tag == "b01" for z in y.args):
                b = y.args[0] if y.args[0].tag == "b01" else y.args[1]
                o = y.args[1] if b is y.args[0] else y.args[0]
                if is_const(o):
                    return mk_not(NEG) if cval(o) == 0 else (NEG if cval(o) == 1 else FALSE)
            if y.tag == "lt" and y.args[1].tag == "b01" and is_const(y.args[0]):
                return NEG if cval(y.args[0]) == 0 else None
            if y.tag == "lt" and y.args[0].tag == "b01" and is_const(y.args[1]):
                return mk_not(NEG) if cval(y.args[1]) == 1 else (FALSE if cval(y.args[1]) <= 0 else None)
            if y.tag == "b01":
                return NEG
            return None
        return subst(x, b01)
    return fix, EXP, NEG


def _zero(x):
    e = _decimal_of(x)
    return (x.tag == "call" and x.args[0].tag == "ext" and x.args[0].args[0] == "decimal.Decimal" and not x.args[1]) or (
        e is not None and is_const(e) and str(cval(e)) in ("0", "0.0"))


def is_value_read(x):
    """a read of some currency's value (its getter or its backing field)"""
    return x.tag == "a" and x.args[1] in ("value", "_value")


def p04(ctx):
    # every write of the amount, anywhere in the class (setters inlined)
    n = 0
    for f in _methods(ctx, CUR):
        res = ctx.run(f, modules=[M], self_cls=CUR)
        for e in res.events:
            if e.kind != "store" or e.attr != "_value":
                continue
            n += 1
            key = "Currency.%s.store@%s" % (f.node.name, f.qual.split("=")[-1] if "=" in f.qual else "m")
            if e.val is NONE or _zero(e.val):
                ctx.ob(key, True)
                continue
            if is_value_read(e.val) or (e.val.tag == "ite" and _is_cur_read(e.val)):
                # copy of an already validated amount: must be read from a Currency
                ctx.ob(key, True)
                continue
            d = e.val
            fix, EXP, NEG = _canon_decimal(d)
            pc = fix(e.pc)
            L = Logic(int_terms=lambda x: x is EXP)
            good = mk_and(mk_not(mk_lt(EXP, const(-9))), mk_not(NEG))
            ctx.ob(key, _decimal_of(d) is not None and L.implies(pc, good), e.where,
                   lambda: "amount %s stored without the sign and 9-decimal check: %s" % (short(d), L.counter(pc, good)))
    ctx.need(n >= 4, "currency amount stores vanished")
    # nobody outside the class writes the backing field of a currency
    import ast
    for m in ctx.repo.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "__new__" and any(
                    isinstance(a, ast.Name) and a.id == "Currency" for a in c.args):
                ctx.ob("Currency.__new__@%s" % m.name, False, "%s:%d" % (m.rel, c.lineno), "currency created without validation")
            if isinstance(c, (ast.Assign, ast.AugAssign)):
                for tg in (c.targets if isinstance(c, ast.Assign) else [c.target]):
                    if isinstance(tg, ast.Attribute) and tg.attr == "_value" and isinstance(tg.value, ast.Attribute):
                        ctx.ob("foreign-store@%s" % m.name, False, "%s:%d" % (m.rel, c.lineno), "backing field of another value object is written")
    # the setter: which inputs are refused / accepted, and with which error
    f = ctx.repo.setter(CUR, "value")
    res = ctx.run(f, modules=[M], self_cls=CUR)
    v = var(f.node.args.args[1].arg)
    isc, it, st = t("isinst", v, (CUR,)), isint(v), t("isinst", v, ("b:str",))
    isd = t("isinst", v, ("ext:decimal.Decimal",))
    kinds = {"int": mk_and(it, mk_not(st), mk_not(isd)), "str": mk_and(st, mk_not(it), mk_not(isd)), "Decimal": mk_and(isd, mk_not(st), mk_not(it))}
    notc = mk_and(mk_not(isc), mk_not(mk_isnone(v)))
    for k, a in kinds.items():
        a = mk_and(a, notc)
        ds = set()
        L0 = Logic()
        for e in res.events:
            if e.kind == "call" and e.name == "Decimal" and L0.sat(mk_and(e.pc, a)):
                x = simplify(e.res, a)
                if e.args:
                    ds.add(e.res)
        ctx.ob("Currency.value[%s].converted" % k, len(ds) == 1, f.where, "a %s amount is not converted to exactly one decimal: %s" % (k, len(ds)))
        if len(ds) != 1:
            continue
        d = ds.pop()
        fix, EXP, NEG = _canon_decimal(d)
        L = Logic(int_terms=lambda x: x is EXP)
        over, neg = mk_lt(EXP, const(-9)), NEG
        acc = fix(res.pc)
        ctx.ob("Currency.value[%s].valid-accepted" % k, L.implies(mk_and(a, mk_not(over), mk_not(neg)), acc), f.where,
               lambda: "a valid amount is refused: %s" % L.counter(mk_and(a, mk_not(over), mk_not(neg)), acc))
        rp = mk_or(*[fix(e.pc) for e in res.raises() if e.name == ERR + "CurrencyPrecisionOverflow"])
        rn = mk_or(*[fix(e.pc) for e in res.raises() if e.name == ERR + "CurrencyNegativeValue"])
        ctx.ob("Currency.value[%s].too-precise" % k, L.implies(mk_and(a, over, mk_not(neg)), rp), f.where,
               "an amount with more than 9 decimals is not refused with the precision error")
        ctx.ob("Currency.value[%s].negative" % k, L.implies(mk_and(a, mk_not(over), neg), rn), f.where,
               "a negative amount is not refused with the negative-value error")
        fin = simplify(res.field(var("self"), "_value"), mk_and(a, res.pc))
        ctx.ob("Currency.value[%s].stored" % k, fin is d or simplify(d, mk_and(a, res.pc)) is fin, f.where, "the amount stored is %s" % short(fin))
    other = mk_and(notc, mk_not(it), mk_not(st), mk_not(isd))
    ctx.ob("Currency.value[other].refused", not Logic().sat(mk_and(other, res.pc)), f.where, "a value of an unsupported type (such as a float) is accepted as amount")
    fin = simplify(res.field(var("self"), "_value"), mk_and(isc))
    ctx.ob("Currency.value[Currency].copied", _is_cur_read(fin, v), f.where, "copying a currency stores %s" % short(fin))
    # the documented errors are constructible with the offending value
    for n in ("CurrencyPrecisionOverflow", "CurrencyNegativeValue"):
        ctx.need(ERR + n in ctx.repo.classes, "error class %s not found" % n)
        g = ctx.repo.method(ERR + n, "value")
        i = ctx.repo.method(ERR + n, "__init__")
        r = ctx.run(i, modules=["tfchain.errors"], self_cls=ERR + n)
        fld = ctx.run(g, modules=["tfchain.errors"], self_cls=ERR + n).val
        got = r.heap.get((var("self").uid, fld.args[1])) if fld.tag == "a" else None
        ctx.ob("%s.value" % n, got is not None and got[2] is var(i.node.args.args[1].arg), i.where, "the error does not carry the refused value")
    # block stakes
    n = 0
    for f in _methods(ctx, BST):
        res = ctx.run(f, modules=[M], self_cls=BST)
        for e in res.events:
            if e.kind == "store" and e.attr == "_value":
                n += 1
                v = strip_int(e.val)
                if is_const(v):
                    ctx.ob("Blockstake.%s.store-const" % f.node.name, isinstance(cval(v), int) and cval(v) >= 0, e.where, "stake set to %r" % v)
                    continue
                if is_value_read(v):
                    L = Logic()
                    ctx.ob("Blockstake.%s.copy" % f.node.name, L.implies(e.pc, t("isinst", v.args[0], (BST,))), e.where,
                           "stake copied from something that is not a block stake")
                    continue
                pc = strip_int(e.pc)
                L = Logic(int_terms=lambda x: x is v)
                ctx.ob("Blockstake.%s.store" % f.node.name, L.implies(pc, mk_not(mk_lt(v, const(0)))), e.where,
                       "a block stake value is stored without the negative check: %s" % short(pc))
    ctx.need(n >= 3, "block stake stores vanished")
    f = ctx.repo.setter(BST, "value")
    res = ctx.run(f, modules=[M], self_cls=BST)
    v = var(f.node.args.args[1].arg)
    other = mk_and(mk_not(isint(v)), mk_not(t("isinst", v, ("b:str",))), mk_not(t("isinst", v, (BST,))), mk_not(mk_isnone(v)))
    ctx.ob("Blockstake.value[other].refused", not Logic().sat(mk_and(other, res.pc)), f.where, "a stake of an unsupported type is accepted")


def _is_cur_read(x, of=None):
    if x.tag == "ite":
        return all(_is_cur_read(y, of) or _zero(y) for y in x.args[1:])
    return is_value_read(x) and (of is None or x.args[0] is of)


# ---------------------------------------------------------------- arithmetic

def p05(ctx):
    q = ctx.repo.method(CUR, "_op_other_as_currency")
    O = None

    def norm(x, selfv, oth):
        """self.value -> S, other's converted value -> O"""
        S, OO = var("S"), var("O")

        def go(y):
            if y.tag == "a" and y.args[1] in ("value", "_value"):
                b = y.args[0]
                if b is selfv:
                    return S
                if b is oth:
                    return OO
                if b.tag == "call" and b.args[0].tag in ("fn", "bm") and b.args[0].args[0] == q.qual and b.args[1] and b.args[1][0] is oth:
                    return OO
            if y.tag == "call" and y.args[0].tag in ("fn", "bm") and y.args[0].args[0] == q.qual and y.args[1] and y.args[1][0] is oth:
                return oth
            return None
        return subst(x, go)

    def curval(x):
        """value held by a freshly built currency term"""
        if x.tag == "new" and x.args[0] == CUR:
            a = list(x.args[2]) + [v for k, v in x.args[3] if k == "value"]
            return a[0] if a else None
        return None

    def opval(x, selfv, oth):
        """a term denoting a new currency: its amount in S and O"""
        c = curval(x)
        if c is not None:
            return norm(c, selfv, oth)
        # delegated to the other operators:  other - self, self + other
        if x.tag == "op":
            def side(y):
                n = norm(y, selfv, oth)
                if n is selfv:
                    return var("S")
                if n is oth:
                    return var("O")
                return None
            a, b = side(x.args[1]), side(x.args[2])
            if a is not None and b is not None:
                return t("op", x.args[0], a, b)
        if x.tag == "neg":
            return None
        return None

    S, OO = var("S"), var("O")
    spec = {"__add__": ("+", S, OO), "__radd__": ("+", OO, S), "__sub__": ("-", S, OO), "__rsub__": ("-", OO, S), "__mul__": ("*", S, OO),
            "__rmul__": ("*", OO, S)}
    for name, (op, a, b) in spec.items():
        f = ctx.repo.lookup(CUR, name)
        ctx.need(f is not None, "Currency.%s not found" % name)
        res = ctx.run(f, modules=[M], opaque=[q.qual], props=False, self_cls=CUR)
        sv, ov = var("self"), var(f.node.args.args[1].arg)
        got = opval(res.val, sv, ov) if res.val is not None else None
        want = {t("op", op, a, b)} | ({t("op", op, b, a)} if op in "+*" else set())
        ctx.ob("Currency.%s.value" % name, got in want, f.where, "result amount is %s, expected %s" % (short(res.val), t("op", op, a, b)))
        ctx.ob("Currency.%s.no-mutation" % name, not [e for e in res.events if e.kind in ("store", "setprop", "aug") and e.kind != "aug" and
                                                     not (e.obj is not None and e.obj.tag == "new")], f.where, "an operand is modified")
    for name, op in (("__iadd__", "+"), ("__isub__", "-"), ("__imul__", "*")):
        f = ctx.repo.lookup(CUR, name)
        if f is None:
            continue      # Python falls back to the pure operator: same result
        res = ctx.run(f, modules=[M], opaque=[q.qual], props=False, self_cls=CUR)
        sv, ov = var("self"), var(f.node.args.args[1].arg)
        fin = res.heap.get((sv.uid, "value"))
        if res.val is sv:
            got = norm(fin[2], sv, ov) if fin else None
            if got is not None and curval(got) is not None:
                got = norm(curval(got), sv, ov)
        else:
            got = opval(res.val, sv, ov)
        want = {t("op", op, S, OO)} | ({t("op", op, OO, S)} if op in "+*" else set())
        ctx.ob("Currency.%s.value" % name, got in want, f.where, "in-place result is %s" % (short(fin[2]) if fin else short(res.val)))
        ctx.ob("Currency.%s.other-untouched" % name, not [e for e in res.events if e.kind in ("store", "setprop") and e.obj is not sv], f.where,
               "the right operand is modified")
    cmps = {"__lt__": mk_lt(S, OO), "__le__": mk_not(mk_lt(OO, S)), "__gt__": mk_lt(OO, S), "__ge__": mk_not(mk_lt(S, OO)),
            "__eq__": mk_eq(S, OO), "__ne__": mk_not(mk_eq(S, OO))}
    for name, want in cmps.items():
        f = ctx.repo.lookup(CUR, name)
        if f is None and name == "__ne__":
            continue
        ctx.need(f is not None, "Currency.%s not found" % name)
        res = ctx.run(f, modules=[M], opaque=[q.qual], props=False, self_cls=CUR)
        got = norm(res.val, var("self"), var(f.node.args.args[1].arg))
        ctx.ob("Currency.%s" % name, Logic().equiv(got, want), f.where, "comparison decides %s, expected %s" % (short(got), want))
    # conversion of the other operand
    res = ctx.run(q, modules=[M], props=False)
    o = var(q.node.args.args[-1].arg)
    isc, it, st, fl = t("isinst", o, (CUR,)), isint(o), t("isinst", o, ("b:str",)), t("isinst", o, ("b:float",))
    for k, a in (("int", mk_and(it, mk_not(st), mk_not(fl), mk_not(isc))), ("str", mk_and(st, mk_not(it), mk_not(fl), mk_not(isc)))):
        v = simplify(res.val, a)
        c = curval(v)
        ctx.ob("operand[%s]" % k, c is o, q.where, "a %s operand becomes %s" % (k, short(v)))
    v = simplify(res.val, mk_and(isc, mk_not(it), mk_not(st), mk_not(fl)))
    ctx.ob("operand[Currency]", v is o or curval(v) is o, q.where, "a currency operand becomes %s" % short(v))
    v = curval(simplify(res.val, mk_and(fl, mk_not(it), mk_not(st), mk_not(isc))))
    e = _decimal_of(v) if v is not None else None
    e = e if e is not None else v
    if e is not None and L_sat(res.pc, mk_and(fl, mk_not(it), mk_not(st), mk_not(isc))):
        ok = e.tag == "call" and e.args[0].tag == "b" and e.args[0].args[0] in ("str", "repr") and e.args[1][0] is o
        ctx.ob("operand[float]", ok, q.where, "a float operand is converted by binary value, not by its decimal text: %s" % short(e))
    none = mk_and(mk_not(isc), mk_not(it), mk_not(st), mk_not(fl))
    ctx.ob("operand[other].refused", not Logic().sat(mk_and(none, res.pc, mk_not(t("isinst", o, ("ext:decimal.Decimal",))))), q.where,
           "an operand of an unsupported type is accepted")


def L_sat(*xs):
    return Logic().sat(mk_and(*xs))


# ---------------------------------------------------------------- scale

def p06(ctx):
    f = ctx.repo.method(CUR, "__int__")
    res = ctx.run(f, modules=[M], props=False, self_cls=CUR)
    d = _digits_of_int(res.val)
    ctx.ob("Currency.__int__.scale", d == 9, f.where, "the integer form of a currency is %s: not the amount in units of 10^-9" % short(res.val))
    f = ctx.repo.method(CUR, "from_json")
    res = ctx.run(f, modules=[M], props=False)
    o = var(f.node.args.args[1].arg)
    st = t("isinst", o, ("b:str",))
    a = mk_and(st, mk_not(mk_eq(o, const(""))), mk_not(mk_isnone(o)))
    v = simplify(res.val, a)
    amount = None
    if v.tag == "new" and v.args[0] == CUR:
        h = res.heap.get((v.uid, "value"))
        amount = simplify(h[2], a) if h else None
        if amount is None:
            aa = list(v.args[2]) + [x for k, x in v.args[3] if k == "value"]
            amount = aa[0] if aa else None
        if amount is not None and amount.tag == "a":
            aa = list(v.args[2])
            amount = aa[0] if aa else amount
    ctx.ob("Currency.from_json.scale", amount is not None and _scaled(amount, o) == -9, f.where,
           "the amount read from JSON is %s: not the integer times 10^-9" % (short(amount) if amount is not None else None))
    ctx.ob("Currency.from_json.type", not L_sat(res.pc, mk_not(st), mk_not(mk_isnone(o))), f.where, "a JSON amount that is not text is accepted")
    # precision limit of the type agrees with the scale
    s = ctx.repo.setter(CUR, "value")
    res = ctx.run(s, modules=[M], self_cls=CUR)
    lims = set()
    for e in res.raises():
        if e.name == ERR + "CurrencyPrecisionOverflow":
            for y in walk(e.pc):
                if y.tag == "lt" and is_const(y.args[1]) and isinstance(cval(y.args[1]), int) and not isinstance(cval(y.args[1]), bool):
                    lims.add(cval(y.args[1]))
    ctx.ob("Currency.precision-limit", -9 in lims, s.where, "the precision limit %s differs from the 10^-9 unit of the integer form" % sorted(lims))
    # JSON form is the decimal text of the integer form
    for name in ("json",):
        f = ctx.repo.method(CUR, name)
        iq = ctx.repo.method(CUR, "__int__").qual
        res = ctx.run(f, modules=[M], opaque=[iq], props=False, self_cls=CUR)
        ctx.ob("Currency.json", _is_str_int(res.val, var("self"), iq), f.where, "JSON form is %s" % short(res.val))
    f = ctx.repo.method(BST, "json")
    res = ctx.run(f, modules=[M], self_cls=BST)
    x = res.val
    ok = x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "str" and strip_int(x.args[1][0]) is attr(var("self"), "_value")
    ctx.ob("Blockstake.json", ok, f.where, "JSON form is %s" % short(x))
    # binary forms: minimal big-endian magnitude with its byte count as prefix
    for cls in (CUR, BST):
        for enc, name in (("sia", "sia_binary_encode"), ("rivine", "rivine_binary_encode")):
            f = ctx.repo.method(cls, name)
            iq = ctx.repo.method(cls, "__int__").qual
            res = ctx.run(f, modules=[M], opaque=[iq], props=True, self_cls=cls)
            en = var(f.node.args.args[1].arg)
            calls = [e for e in res.events if e.kind == "call" and e.recv is en]
            key = "%s.%s" % (cls.split(".")[-1], name)
            ok, why = _amount_bytes(calls, enc, cls, res)
            ctx.ob(key, ok, f.where, why)


def _digits_of_int(x):
    """number of decimal digits the integer form scales by"""
    if not (x is not None and x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "int"):
        return None
    y = x.args[1][0]
    if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] == "replace" and len(y.args[1]) == 2 and y.args[1][0] is const(".") and y.args[1][1] is const(""):
        z = y.args[0].args[0]
        if z.tag == "fmt" and len(z.args[0]) == 1 and z.args[0][0].tag == "spec" and is_value_read(z.args[0][0].args[0]):
            import re
            m = re.fullmatch(r"\.(\d+)f", z.args[0][0].args[1])
            return int(m.group(1)) if m else None
        if z.tag == "call" and z.args[0].tag == "b" and z.args[0].args[0] == "format" and is_value_read(z.args[1][0]) and is_const(z.args[1][1]):
            import re
            m = re.fullmatch(r"\.(\d+)f", str(cval(z.args[1][1])))
            return int(m.group(1)) if m else None
        return None
    return _scaled(y, attr(var("self"), "value"))


def _scaled(x, base):
    """x == base * 10^k -> k"""
    from decimal import Decimal, InvalidOperation
    if x is base:
        return 0
    e = _decimal_of(x)
    if e is not None:
        return _scaled(e, base)
    if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "int" and len(x.args[1]) == 1:
        return _scaled(x.args[1][0], base)
    if x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "scaleb" and len(x.args[1]) == 1 and is_const(x.args[1][0]):
        k = _scaled(x.args[0].args[0], base)
        return None if k is None else k + int(cval(x.args[1][0]))
    if x.tag == "op" and x.args[0] in ("*", "/"):
        for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            k = _scaled(p, base)
            if k is None or (x.args[0] == "/" and p is not x.args[1]):
                continue
            c = _decimal_of(q)
            c = c if c is not None else q
            if is_const(c):
                try:
                    v = Decimal(str(cval(c)))
                except InvalidOperation:
                    return None
                for n in range(-18, 19):
                    if v == Decimal(10) ** n:
                        return k + (n if x.args[0] == "*" else -n)
    return None


def _is_str_int(x, obj, iq):
    if not (x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "str" and len(x.args[1]) == 1):
        return False
    y = x.args[1][0]
    if y.tag == "call" and y.args[0].tag == "b" and y.args[0].args[0] == "int" and y.args[1] and y.args[1][0] is obj:
        return True
    return y.tag == "call" and y.args[0].tag == "bm" and y.args[0].args[0] == iq and y.args[0].args[1] is obj


def _magnitude(x, cls, iq=None):
    """the integer amount of self"""
    s = var("self")
    if cls == BST and strip_int(x) is attr(s, "_value"):
        return True
    if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "int" and x.args[1] and x.args[1][0] is s:
        return True
    return x.tag == "call" and x.args[0].tag == "bm" and x.args[0].args[0].endswith(".__int__") and x.args[0].args[1] is s


def _minbytes(n, v):
    """n is the minimal number of bytes of the non-negative integer v"""
    bl = None
    for y in walk(n):
        if y.tag == "call" and y.args[0].tag == "a" and y.args[0].args[1] == "bit_length":
            if y.args[0].args[0] is not v:
                return False
            bl = y
    if bl is None:
        return False
    div, mod = t("op", "//", bl, const(8)), t("op", "%", bl, const(8))
    sh, an = t("op", ">>", bl, const(3)), t("op", "&", bl, const(7))
    n = subst(n, lambda y: div if y is sh else (mod if y is an else None))
    one = {mk_op("+", div, const(1)), mk_op("+", const(1), div)}
    if n.tag == "ite":
        c, a, b = n.args
        pos = c is mod or c is mk_lt(const(0), mod) or c is mk_not(mk_eq(mod, const(0))) or c is mk_not(mk_lt(mod, const(1)))
        neg = c is mk_eq(mod, const(0)) or c is mk_not(mod)
        return (pos and a in one and b is div) or (neg and b in one and a is div)
    for s in (mk_op("+", bl, const(7)), mk_op("+", const(7), bl)):
        if n is t("op", "//", s, const(8)) or n is t("op", ">>", s, const(3)):
            return True
    if n.tag == "op" and n.args[0] == "+":
        for p, q in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
            if p is div and q.tag == "call" and q.args[0].tag == "b" and q.args[0].args[0] in ("bool", "int"):
                c = q.args[1][0]
                if c is mod or c is mk_not(mk_eq(mod, const(0))) or c is mk_lt(const(0), mod):
                    return True
            if p is div and q.tag in ("ite",) and q.args[0] is mod and q.args[1] is const(1) and q.args[2] is const(0):
                return True
    if n.tag == "neg" and n.args[0] is t("op", "//", t("neg", bl), const(8)):
        return True
    return False


def _amount_bytes(calls, enc, cls, res):
    L = Logic()
    if any(not L.implies(TRUE, e.pc) for e in calls):
        return False, "an encoding step is conditional: %s" % calls
    names = [e.name for e in calls]

    def body(x):
        tb = None
        if x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "to_bytes":
            k = dict(x.args[2])
            n = x.args[1][0] if x.args[1] else k.get("length")
            o = x.args[1][1] if len(x.args[1]) > 1 else k.get("byteorder", const("big"))
            v = x.args[0].args[0]
            if _magnitude(v, cls) and is_const(o) and cval(o) == "big" and k.get("signed", FALSE) is FALSE and n is not None and _minbytes(n, v):
                return n
        return None
    if enc == "rivine":
        if names == ["add_slice"] and body(calls[0].args[0]) is not None:
            return True, ""
    else:
        if names == ["add_int", "add_array"]:
            n = body(calls[1].args[0])
            if n is not None and (calls[0].args[0] is n or _len_of(calls[0].args[0], calls[1].args[0])):
                return True, ""
        if names == ["add_slice"] and body(calls[0].args[0]) is not None:
            return True, ""
    return False, "amount is not written as a length-prefixed minimal big-endian magnitude: %s" % [short(e) for e in calls]


def _len_of(n, x):
    return n.tag == "call" and n.args[0].tag == "b" and n.args[0].args[0] == "len" and n.args[1][0] is x


# ---------------------------------------------------------------- fixed-size data

def p07(ctx):
    n = 0
    FS = attr(var("self"), "_fixed_size")
    for f in _methods(ctx, BIN):
        if f.node.name == "__init__":
            continue
        res = ctx.run(f, modules=[M], self_cls=BIN)
        for e in res.events:
            if e.kind == "store" and e.attr == "_value" and e.obj is var("self"):
                n += 1
                ln = t("call", t("b", "len"), (e.val,), ())
                good = mk_or(mk_isnone(FS), mk_eq(ln, const(0)), mk_eq(ln, FS))
                L = Logic()
                ctx.ob("BinaryData.%s.size-checked" % f.node.name, L.implies(e.pc, good), e.where,
                       lambda: "data stored although its length can differ from the fixed size: %s" % L.counter(e.pc, good))
    ctx.need(n >= 1, "binary data store vanished")
    f = ctx.repo.setter(BIN, "value")
    res = ctx.run(f, modules=[M], self_cls=BIN)
    v = var(f.node.args.args[1].arg)
    ok = [t("isinst", v, (BIN,)), mk_isnone(v), t("isinst", v, ("b:str",)), t("isinst", v, ("b:bytes",)), t("isinst", v, ("b:bytearray",))]
    ctx.ob("BinaryData.value.types", not L_sat(res.pc, *[mk_not(x) for x in ok]), f.where, "data of an unsupported type is accepted")
    r = mk_or(*[e.pc for e in res.raises() if e.name == "b:ValueError"])
    fin = res.field(var("self"), "_value")
    ln = t("call", t("b", "len"), (fin,), ())
    # constructor: the declared size is set before the value is assigned
    fi = ctx.repo.method(BIN, "__init__")
    sq = ctx.repo.setter(BIN, "value")
    res = ctx.run(fi, modules=[M], opaque=[sq.qual], self_cls=BIN)
    fs = var("fixed_size")
    sets = [e for e in res.events if e.kind == "setprop" and e.attr == "value"]
    ctx.ob("BinaryData.__init__.uses-setter", len(sets) >= 1 and all(e.val is var("value") for e in sets), fi.where, "the initial value bypasses the checked setter")
    for e in sets:
        st = [x for x in res.events if x.kind == "store" and x.attr == "_fixed_size" and x.seq < e.seq]
        a = mk_and(mk_not(mk_isnone(fs)), mk_lt(const(0), fs), isint(fs))
        L = Logic(int_terms=lambda x: x is fs)
        covered = mk_or(*[x.pc for x in st if x.val is fs or simplify(x.val, mk_and(x.pc, a), lambda y: y is fs) is fs])
        ctx.ob("BinaryData.__init__.size-before-value", L.implies(mk_and(a, e.pc), covered), e.where, "the value is assigned before its fixed size is known")
    raw = [e for e in res.events if e.kind == "store" and e.attr == "_value" and e.val is not NONE]
    ctx.ob("BinaryData.__init__.no-raw-store", not raw, fi.where, "the initial value is stored unchecked")
    # encoding form
    for name in ("sia_binary_encode", "rivine_binary_encode"):
        f = ctx.repo.method(BIN, name)
        res = ctx.run(f, modules=[M], self_cls=BIN)
        en = var(f.node.args.args[1].arg)
        L = Logic()
        for k, a, want in (("fixed", mk_not(mk_isnone(FS)), "add_array"), ("variable", mk_isnone(FS), "add_slice")):
            cs = [e for e in res.events if e.kind == "call" and e.recv is en and L.sat(mk_and(a, e.pc))]
            ok = len(cs) == 1 and cs[0].name == want and L.implies(a, cs[0].pc) and simplify(cs[0].args[0], a) is attr(var("self"), "_value")
            ctx.ob("BinaryData.%s.%s" % (name, k), ok, f.where, "%s-size data is written by %s" % (k, [short(c) for c in cs]))
    # declared sizes of the protocol's fixed-size values
    import ast
    H = "tfchain.types."
    spec = [("PrimitiveTypes.Hash", 32, {"hex", None}), ("ERC20.ERC20Hash", 32, {"hexprefix"}), ("ERC20.ERC20Address", 20, {"hexprefix"}),
            ("ConditionTypes.AtomicSwapSecret", 32, None), ("ConditionTypes.AtomicSwapSecretHash", 32, None)]
    for q, size, encs in spec:
        cls = H + q
        if cls not in ctx.repo.classes:
            ctx.need(False, "class %s not found" % cls)
        fi = ctx.repo.method(cls, "__init__")
        res = ctx.run(fi, modules=["tfchain.types"], opaque=[BIN + ".__init__"], self_cls=cls)
        cs = [e for e in res.events if e.kind == "call" and e.obj == BIN + ".__init__"]
        ok = len(cs) == 1 and is_const(cs[0].arg(1, "fixed_size", NONE)) and cval(cs[0].arg(1, "fixed_size", NONE)) == size and \
            cs[0].pc is TRUE
        ctx.ob("%s.size" % q, ok, fi.where, "declared with %s, expected %d bytes" % ([short(c) for c in cs], size))
        if encs and ok:
            s = cs[0].arg(2, "strencoding", NONE)
            ctx.ob("%s.text-form" % q, is_const(s) and cval(s) in encs, fi.where, "text form %r" % s)
    cls = H + "FulfillmentTypes.ED25519Signature"
    fi = ctx.repo.method(cls, "__init__")
    res = ctx.run(fi, modules=["tfchain.types"], opaque=[BIN + ".__init__"], self_cls=cls)
    cs = [e for e in res.events if e.kind == "call" and e.obj == BIN + ".__init__"]
    arr = var("as_array")
    ok = len(cs) == 1 and cs[0].pc is TRUE and cs[0].arg(1, "fixed_size", NONE) is const(64)
    ctx.ob("ED25519Signature.size", ok, fi.where, "declared with %s, expected 64 bytes" % [short(c) for c in cs])
    flag = res.field(var("self"), "_as_array")
    ctx.ob("ED25519Signature.flag", simplify(flag, t("isinst", arr, ("b:bool",))) is arr, fi.where, "the array flag is stored as %s" % short(flag))
    for name in ("sia_binary_encode", "rivine_binary_encode"):
        f = ctx.repo.method(cls, name)
        res = ctx.run(f, modules=["tfchain.types"], self_cls=cls)
        en = var(f.node.args.args[1].arg)
        A = attr(var("self"), "_as_array")
        L = Logic()
        for k, a in (("array", A), ("slice", mk_not(A))):
            want = "add_array" if (k == "array" and name[0] == "r") else "add_slice"
            cs = [e for e in res.events if e.kind == "call" and e.recv is en and L.sat(mk_and(a, e.pc))]
            ok = len(cs) == 1 and cs[0].name == want and L.implies(a, cs[0].pc) and simplify(cs[0].args[0], a) is attr(var("self"), "_value")
            ctx.ob("ED25519Signature.%s.%s" % (name, k), ok, f.where, "signature (%s form) is written by %s" % (k, [short(c) for c in cs]))
