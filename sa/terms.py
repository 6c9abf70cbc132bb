"""Hash-consed value terms (the value domain of the gated value analysis)."""

_table = {}


import re


class T:
    __slots__ = ("tag", "args", "uid", "_s")

    def __repr__(self):
        return show(self)

    # interned: identity equality / default hash


def t(tag, *args):
    key = (tag, tuple(("T", a.uid) if isinstance(a, T) else _k(a) for a in args))
    r = _table.get(key)
    if r is None:
        r = T()
        r.tag = tag
        r.args = args
        r.uid = len(_table)
        r._s = None
        _table[key] = r
    return r


def _k(a):
    if isinstance(a, tuple):
        return ("tup", tuple(("T", x.uid) if isinstance(x, T) else _k(x) for x in a))
    return (type(a).__name__, a)


def const(v):
    return t("c", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(x):
    return isinstance(x, T) and x.tag == "c"


def cval(x):
    return x.args[1]


def var(n):
    return t("v", n)


def attr(b, n):
    return t("a", b, n)


def show(x, depth=0):
    if isinstance(x, tuple):
        return "(" + ", ".join(show(a, depth + 1) for a in x) + ")"
    if not isinstance(x, T):
        return str(x)
    if x._s is not None:
        return x._s
    if depth > 60:
        return "..."
    g, a = x.tag, x.args
    d = depth + 1
    if g == "c":
        s = repr(a[1])
    elif g == "v":
        s = a[0]
    elif g == "a":
        s = show(a[0], d) + "." + a[1]
    elif g == "i":
        s = show(a[0], d) + "[" + show(a[1], d) + "]"
    elif g == "call":
        s = show(a[0], d) + "(" + ", ".join([show(p, d) for p in a[1]] + [k + "=" + show(v, d) for k, v in a[2]]) + ")"
    elif g in ("fn", "cls", "mod", "b"):
        s = str(a[0])
    elif g == "new":
        s = "new " + a[0].split(".")[-1] + "(" + ", ".join([show(p, d) for p in a[2]] + [k + "=" + show(v, d) for k, v in a[3]]) + ")"
    elif g == "op":
        s = "(" + show(a[1], d) + " " + a[0] + " " + show(a[2], d) + ")"
    elif g == "lt":
        s = show(a[0], d) + " < " + show(a[1], d)
    elif g == "eq":
        s = show(a[0], d) + " == " + show(a[1], d)
    elif g == "not":
        s = "!(" + show(a[0], d) + ")"
    elif g in ("and", "or"):
        s = "(" + (" & " if g == "and" else " | ").join(show(p, d) for p in a[0]) + ")"
    elif g == "ite":
        s = "(" + show(a[1], d) + " if " + show(a[0], d) + " else " + show(a[2], d) + ")"
    else:
        s = g + "<" + ", ".join(show(p, d) for p in a) + ">"
    if len(s) > 4000:
        s = s[:4000] + "..."
    x._s = s
    return s


def walk(x, seen=None):
    """yield every distinct sub-term"""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            if y.uid in seen:
                continue
            seen.add(y.uid)
            yield y
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)


def mentions(x, pred):
    return any(pred(y) for y in walk(x))


def subst(x, fn, memo=None):
    """bottom-up rewrite: fn(term) -> term or None (keep)"""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(subst(a, fn, memo) for a in x)
    if not isinstance(x, T):
        return x
    if x.uid in memo:
        return memo[x.uid]
    pre = fn(x)
    if pre is not None:
        memo[x.uid] = pre
        return pre
    na = tuple(subst(a, fn, memo) for a in x.args)
    if all(p is q for p, q in zip(na, x.args)):
        r = x
    else:
        r = rebuild(x.tag, na)
    memo[x.uid] = r
    return r


def rebuild(tag, args):
    if tag == "new" and given is not None and args[2] and not args[3] and args[2][-1].tag == "c":
        return t("new", args[0], args[1], tuple(given(args[0], args[2])), ())
    if tag == "not":
        return mk_not(args[0])
    if tag == "and":
        return mk_and(*args[0])
    if tag == "or":
        return mk_or(*args[0])
    if tag == "ite":
        return mk_ite(*args)
    if tag == "eq":
        return mk_eq(*args)
    if tag == "lt":
        return mk_lt(*args)
    if tag == "op":
        return mk_op(*args)
    if tag == "i":
        return mk_index(*args)
    return t(tag, *args)


# ---- boolean constructors ----

_ALWAYS_TRUE = {"lam", "cls", "fn", "mod", "b"}


def truth(x):
    """constant truth value of a term, or None"""
    if x.tag == "c":
        return bool(x.args[1])
    if x.tag in _ALWAYS_TRUE:
        return True
    if x.tag in ("list", "tuple", "dict", "set"):
        if x.args[0]:
            return True
        return False
    if x.tag == "upd":
        return True
    return None


_PRED = re.compile(r"_?(extra_)?is_[a-z_]+$")


def _predicate(x):
    """the result of a predicate method (`is_...`): a truth value"""
    if x.tag != "call":
        return False
    f = x.args[0]
    n = f.args[1] if f.tag == "a" else f.args[0].rsplit(".", 1)[-1] if f.tag in ("bm", "fn") and isinstance(f.args[0], str) else ""
    return bool(_PRED.match(n))


flags = set()
whole = set()


def is_boolish(x):
    return _predicate(x) or x.tag == "v" and x.args[0] in flags or x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "bool" or x.tag in ("not", "and", "or", "eq", "lt", "is", "isinst", "in", "exists", "exc", "hasattr") or (
        x.tag == "c" and isinstance(x.args[1], bool))


def mk_not(x):
    tv = truth(x)
    if tv is not None:
        return const(not tv)
    if x.tag == "not":
        return x.args[0] if is_boolish(x.args[0]) else t("not", x)
    if x.tag == "or" and all(y.tag == "not" for y in x.args[0]):
        return mk_and(*[mk_not(y) for y in x.args[0]])
    if x.tag == "ite" and is_boolish(x.args[1]) and is_boolish(x.args[2]):
        return mk_ite(x.args[0], mk_not(x.args[1]), mk_not(x.args[2]))
    return t("not", x)


def _flat(tag, xs, unit, zero):
    out = []
    for x in xs:
        tv = truth(x)
        if tv is unit:
            continue
        if tv is zero:
            return None
        if x.tag == tag:
            for y in x.args[0]:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if x.tag == "not":
            y = x.args[0]
            if y in out or (y.tag == tag and all(z in out for z in y.args[0])):
                return None
    return out


def mk_and(*xs):
    o = _flat("and", xs, True, False)
    if o is None:
        return FALSE
    # absorb:  a & !(a & b) = a & !b
    for x in o:
        if x.tag == "not" and x.args[0].tag == "and" and any(z in o for z in x.args[0].args[0]):
            rest = [z for z in x.args[0].args[0] if z not in o]
            return mk_and(*[mk_not(mk_and(*rest)) if y is x else y for y in o])
    if not o:
        return TRUE
    if len(o) == 1:
        return o[0]
    return t("and", tuple(o))


def mk_or(*xs):
    o = _flat("or", xs, False, True)
    if o is None:
        return TRUE
    if not o:
        return FALSE
    if len(o) == 1:
        return o[0]
    # factor conjuncts common to every disjunct:  (p & x) | (p & y) = p & (x | y)
    sets = [list(x.args[0]) if x.tag == "and" else [x] for x in o]
    common = [z for z in sets[0] if all(z in s for s in sets[1:])]
    if common:
        rest = [[z for z in s if z not in common] for s in sets]
        if any(not r for r in rest):
            return mk_and(*common)
        return mk_and(*(common + [mk_or(*[mk_and(*r) for r in rest])]))
    # absorb:  !c | (c & x) = !c | x
    if len(o) == 2:
        for i, j in ((0, 1), (1, 0)):
            if o[i].tag != "and" and o[j].tag == "and":
                n = mk_not(o[i])
                if n in o[j].args[0]:
                    return mk_or(o[i], mk_and(*[z for z in o[j].args[0] if z is not n]))
        p, q = sets
        for z in p:
            if mk_not(z) in q and len(p) > 1 and len(q) > 1 and set(p) - {z} == set(q) - {mk_not(z)}:
                return mk_and(*[y for y in p if y is not z])
    return t("or", tuple(o))


def mk_ite(c, a, b):
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if a is b:
        return a
    if c.tag == "not":
        return mk_ite(c.args[0], b, a)
    if a.tag == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.tag == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.tag == "or" and all(x.tag == "not" for x in c.args[0]):
        return mk_ite(mk_and(*[x.args[0] for x in c.args[0]]), b, a)
    # one condition where the same value is chosen twice:  b unless c and d
    if a.tag == "ite" and not (is_boolish(a) and is_boolish(b)):
        if a.args[2] is b:
            return mk_ite(mk_and(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return mk_ite(mk_and(c, mk_not(a.args[0])), a.args[2], b)
    if b.tag == "ite" and not (is_boolish(a) and is_boolish(b)):
        if b.args[1] is a:
            return mk_ite(mk_or(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return mk_ite(mk_and(mk_not(c), b.args[0]), b.args[1], a)
    if a.tag == "cat" and b.tag == "cat" and a.args[0] is b.args[0]:
        return t("cat", a.args[0], mk_ite(c, a.args[1], b.args[1]))
    if a.tag == "without" and a.args[0] is b:
        # nothing is taken out where it is not in
        h = t("in", a.args[1], b)
        cs = c.args[0] if c.tag == "and" else (c,)
        if h in cs:
            return mk_ite(mk_and(*[x for x in cs if x is not h]), a, b)
    if a.tag == "upd" and b.tag == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return t("upd", a.args[0], a.args[1], mk_ite(c, a.args[2], b.args[2]))
    if a is TRUE and b is FALSE and is_boolish(c):
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if is_boolish(a) and is_boolish(b):
        if a is TRUE:
            return mk_or(c, b) if is_boolish(c) else t("ite", c, a, b)
        if b is FALSE:
            return mk_and(c, a) if is_boolish(c) else t("ite", c, a, b)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is TRUE:
            return mk_or(mk_not(c), a)
    return t("ite", c, a, b)


def mk_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if y is TRUE and is_boolish(x):
            return x
        if y is FALSE and is_boolish(x):
            return mk_not(x)
    if a is b:
        return TRUE
    if a.tag == "c" and b.tag == "c":
        try:
            return const(a.args[1] == b.args[1])
        except Exception:
            pass
    if a is NONE or b is NONE:
        return mk_isnone(b if a is NONE else a)
    if a.tag == "c" or (b.tag != "c" and a.uid > b.uid):
        a, b = b, a
    if b.tag == "c" and type(b.args[1]) is int:
        a = _whole_split(a, b.args[1])
    if a.tag == "dict" and b.tag == "dict" and is_dictish(a) and is_dictish(b) and set(dict_keys(a)) != set(dict_keys(b)):
        return FALSE
    if a.tag == "ite" and b.tag == "c":
        return mk_ite(a.args[0], mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b is const(0) and a.tag == "op" and a.args[0] == "+" and is_count(a):
        return mk_and(mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b is const(0) and a.tag == "op" and a.args[0] == "-":
        return mk_eq(a.args[1], a.args[2])
    r = _affix(a, b) if b.tag == "c" else None
    return t("eq", a, b) if r is None else r


_STR_METHODS = ("strip", "lstrip", "rstrip", "upper", "lower", "replace", "join", "format", "hex", "decode", "title", "capitalize", "casefold", "zfill")


def is_strish(x):
    """surely a text"""
    if x.tag == "c":
        return isinstance(x.args[1], str)
    if x.tag in ("fmt", "join") or is_text(x):
        return True
    if x.tag == "call":
        f = x.args[0]
        return (f.tag == "a" and f.args[1] in _STR_METHODS) or (f.tag == "b" and f.args[0] in ("str", "repr", "format"))
    if x.tag == "i":
        return is_strish(x.args[0])
    if x.tag == "ite":
        return is_strish(x.args[1]) and is_strish(x.args[2])
    return False


def _affix(a, b):
    """x[-k:] == s, x[:k] == s, x[-1] == s, x[0] == s  as  x.endswith(s), x.startswith(s)"""
    s = b.args[1]
    if a.tag != "i" or not isinstance(s, (str, bytes)) or not s:
        return None
    x, i = a.args
    if i.tag == "slice" and i.args[2] is NONE:
        lo, up = i.args[:2]
        if up is NONE and lo.tag == "c" and lo.args[1] == -len(s):
            return t("call", t("a", x, "endswith"), (b,), ())
        if (lo is NONE or (lo.tag == "c" and lo.args[1] == 0)) and up.tag == "c" and up.args[1] == len(s):
            return t("call", t("a", x, "startswith"), (b,), ())
    if isinstance(s, str) and len(s) == 1 and i.tag == "c" and i.args[1] in (0, -1) and is_strish(x):
        return t("call", t("a", x, "startswith" if i.args[1] == 0 else "endswith"), (b,), ())
    return None


def _never_none(x):
    if x.tag == "ite":
        return _never_none(x.args[1]) and _never_none(x.args[2])
    return x.tag == "phi" or mk_isnone(x) is FALSE


some = None
gives = None
padded = None  # the arguments of a constructor with the defaults of those left out, up to a number of them
given = None  # the arguments of a constructor that do not merely spell out its defaults
_full = set()


def mark_full(d):
    """a dictionary no None is put in"""
    _full.add(d)


def _filled(s):
    if s.tag == "extend":
        return _filled(s.args[0]) and _filled(s.args[1])
    if s.tag in ("map", "flatmap"):
        return _filled(s.args[0])
    if s.tag == "list":
        return all(_filled(x) for x in s.args[0])
    if s.tag == "tuple" and len(s.args[0]) == 2:
        k, v = s.args[0]
        return mentions(k, lambda y: y.tag == "a" and y.args[0] is v) or mk_isnone(v) is FALSE
    return False


def mk_isnone(x):
    if x is NONE:
        return TRUE
    if x.tag in ("c", "new", "list", "tuple", "dict", "set", "op", "map", "cat", "fmt", "lam", "cls", "fn"):
        return FALSE
    if x.tag == "fold" and mk_isnone(x.args[0]) is FALSE and _never_none(x.args[2]):
        return FALSE
    if x.tag == "ite":
        return mk_ite(x.args[0], mk_isnone(x.args[1]), mk_isnone(x.args[2]))
    if is_boolish(x):
        return FALSE
    if x.tag == "i" and (x.args[0] in _full or x.args[0].tag == "dictof" and _filled(x.args[0].args[0])):
        return FALSE
    if x.tag == "first":
        e = t("elem", x.args[0])
        if mentions(x.args[1], lambda y: y.tag == "a" and y.args[0] is e):
            return FALSE  # something was read from it
    if x.tag in ("call", "a") and gives is not None and gives(x):
        return FALSE
    return t("is", x, NONE)


def _whole(x):
    """a limit written 60.0 is the limit 60"""
    if x.tag == "c" and type(x.args[1]) is float and abs(x.args[1]) < 2 ** 53 and x.args[1] == int(x.args[1]):
        return const(int(x.args[1]))
    return x


def mk_lt(a, b):
    if a.tag == "c" and b.tag == "c":
        try:
            return const(a.args[1] < b.args[1])
        except Exception:
            pass
    if a is b:
        return FALSE
    a, b = _whole(a), _whole(b)
    if b.tag == "c" and type(b.args[1]) is int:
        a = _whole_split(a, b.args[1] - 1)
    if a.tag == "c" and type(a.args[1]) is int:
        b = _whole_split(b, a.args[1])
    if a is const(0) and b.tag == "sum" and b.args[0].tag == "map" and b.args[0].args[0] is const(1) and some is not None:
        return some(b.args[0].args[1], b.args[0].args[2])
    for x, y, s in ((a, b, 0), (b, a, 1)):
        if x is const(0) and y.tag == "op" and y.args[0] == "-":
            return mk_lt(y.args[1], y.args[2]) if s else mk_lt(y.args[2], y.args[1])
        # a count against a constant, the constant part on one side
        if x.tag == "c" and type(x.args[1]) is int and y.tag == "op" and y.args[0] in ("-", "+"):
            p, q = y.args[1:]
            if q.tag == "c" and type(q.args[1]) is int and is_count(p):
                k = const(x.args[1] + (q.args[1] if y.args[0] == "-" else -q.args[1]))
                return mk_lt(p, k) if s else mk_lt(k, p)
            if y.args[0] == "+" and is_count(p) and is_count(q) and x.args[1] == (1 if s else 0):
                z = const(0)
                return mk_and(mk_lt(p, const(1)), mk_lt(q, const(1))) if s else mk_or(mk_lt(z, p), mk_lt(z, q))
    return t("lt", a, b)


def is_count(x):
    """a number of things: an integer that is never negative"""
    if x.tag == "sum":
        return x.args[0].tag == "map" and x.args[0].args[0] is const(1)
    if x.tag == "op" and x.args[0] == "+":
        return is_count(x.args[1]) and is_count(x.args[2])
    return x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "len"


_BIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
    "|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "**": lambda a, b: a ** b,
}


def is_text(x):
    """the term is certainly a str"""
    if x.tag == "c":
        return isinstance(x.args[1], str)
    if x.tag in ("fmt", "join"):
        return True
    if x.tag == "ite":
        return is_text(x.args[1]) and is_text(x.args[2])
    if x.tag == "call":
        f = x.args[0]
        return (f.tag == "b" and f.args[0] in ("str", "repr", "hex", "chr")) or (f.tag == "a" and f.args[1] in ("hex", "hexdigest", "decode"))
    return False


def mk_text(parts):
    """a text made of pieces: constants, values rendered by str(), and values with a format specification"""
    out = []
    for p in parts:
        if p.tag == "fmt":
            sub = list(p.args[0])
        elif p.tag == "c" and isinstance(p.args[1], (str, int)) and not isinstance(p.args[1], bool):
            sub = [const(str(p.args[1]))]
        elif p.tag == "call" and p.args[0].tag == "b" and p.args[0].args[0] == "str" and len(p.args[1]) == 1 and not p.args[2]:
            sub = [p.args[1][0]]
        else:
            sub = [p]
        for q in sub:
            if out and q.tag == "c" and out[-1].tag == "c" and isinstance(q.args[1], str) and isinstance(out[-1].args[1], str):
                out[-1] = const(out[-1].args[1] + q.args[1])
            elif q.tag == "c" and q.args[1] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_text(out[0]):
        return out[0]
    return t("fmt", tuple(out))


def format_parts(template, args, kw, percent=False):
    """pieces of template.format(*args, **kw); None if not understood"""
    import string
    if percent:
        import re
        toks = re.split(r"(%[sdr]|%%)", template)
        out, i = [], 0
        for k in toks:
            if k == "%%":
                out.append(const("%"))
            elif len(k) == 2 and k[0] == "%" and k[1] in "sd":
                if i >= len(args):
                    return None
                out.append(args[i])
                i += 1
            elif "%" in k:
                return None
            else:
                out.append(const(k))
        return out if i == len(args) else None
    out, n = [], 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(template):
            out.append(const(lit))
            if fld is None:
                continue
            if fld == "":
                v = args[n] if n < len(args) else None
                n += 1
            elif fld.isdigit():
                v = args[int(fld)] if int(fld) < len(args) else None
            else:
                v = kw.get(fld)
            if v is None or conv not in (None, "s") or "{" in spec:
                return None
            out.append(v if not spec else t("spec", v, spec))
    except ValueError:
        return None
    return out


def mk_op(op, a, b):
    if a.tag == "c" and b.tag == "c" and op in _BIN:
        x, y = a.args[1], b.args[1]
        if isinstance(x, (int, float, str, bytes)) and isinstance(y, (int, float, str, bytes)):
            if not (op in ("**", "<<", "*") and isinstance(y, int) and abs(y) > 4096):
                try:
                    return const(_BIN[op](x, y))
                except Exception:
                    pass
    if op == "+" and a.tag in ("list", "tuple") and a.tag == b.tag:
        return t(a.tag, a.args[0] + b.args[0])
    if op == "+" and b.tag == "list" and b.args[0] and not any(y.tag == "star" for y in b.args[0]) and a.tag not in ("list", "tuple", "c"):
        for y in b.args[0]:
            a = t("cat", a, y)
        return a
    if op == "+" and (is_text(a) or is_text(b)):
        return mk_text((a, b))
    if op in ("|", "^") and (a is const(0) or b is const(0)):
        return b if a is const(0) else a
    # +0 on numbers is only folded by linear normalisation (rules), not here
    if op == "-" and b.tag == "op" and b.args[0] == "*":
        # what a whole division leaves
        for x, k in (b.args[1:], b.args[:0:-1]):
            if k.tag == "c" and type(k.args[1]) is int and x is t("op", "//", a, k):
                return mk_op("%", a, k)
    if op == "*":
        if a.tag == "c" and type(a.args[1]) is int and b.tag != "c":
            a, b = b, a
        if b.tag == "c" and type(b.args[1]) is int and a.tag == "op" and a.args[0] == "*" and a.args[2].tag == "c" and type(a.args[2].args[1]) is int:
            a, b = a.args[1], const(a.args[2].args[1] * b.args[1])
    if op in ("+", "-"):
        r = _number_sum(op, a, b)
        if r is not None:
            return r
    if op == "+" and a.uid > b.uid and any(x.tag == "new" and str(x.args[0]).endswith(".Currency") for x in (a, b)):
        a, b = b, a  # of amounts
    return t("op", op, a, b)


def _number_sum(op, a, b):
    """a sum with a whole number in it is one of numbers: its parts in one order, the number last"""
    def parts(x, s):
        if x.tag == "op" and x.args[0] in ("+", "-"):
            return parts(x.args[1], s) + parts(x.args[2], s if x.args[0] == "+" else -s)
        return [(x, s)]
    ps = parts(a, 1) + parts(b, 1 if op == "+" else -1)
    ks = [(x, s) for x, s in ps if x.tag == "c" and type(x.args[1]) is int]
    if not ks or len(ps) < 3 and not (op == "+" and a.tag == "c" and a.args[1] != 0):
        return None
    k = sum(x.args[1] * s for x, s in ks)
    rest = [(x, s) for x, s in ps if (x, s) not in ks]
    out = []
    for x, s in rest:
        if (x, -s) in out:
            out.remove((x, -s))
        else:
            out.append((x, s))
    if not any(s > 0 for _, s in out):
        return None
    out.sort(key=lambda q: (-q[1], q[0].uid))
    r = out[0][0]
    for x, s in out[1:]:
        r = t("op", "+" if s > 0 else "-", r, x)
    if k:
        r = t("op", "+" if k > 0 else "-", r, const(abs(k)))
    return r


# ---- dictionaries with constant keys, built by gated updates ----

_dmemo = {}


def is_dictish(d):
    r = _dmemo.get(d)
    if r is None:
        if d.tag == "dict":
            r = all(k.tag == "c" for k, _ in d.args[0])
        elif d.tag == "upd":
            r = d.args[1].tag == "c" and is_dictish(d.args[0])
        elif d.tag == "mut" and d.args[0] in ("del", "pop"):
            r = len(d.args[2]) > 0 and d.args[2][0].tag == "c" and is_dictish(d.args[1])
        elif d.tag == "ite":
            r = is_dictish(d.args[1]) and is_dictish(d.args[2])
        else:
            r = False
        _dmemo[d] = r
    return r


def dict_keys(d):
    if d.tag == "dict":
        out = []
        for k, _ in d.args[0]:
            if k not in out:
                out.append(k)
        return out
    if d.tag == "upd":
        out = list(dict_keys(d.args[0]))
        return out if d.args[1] in out else out + [d.args[1]]
    if d.tag == "mut":
        return dict_keys(d.args[1])
    out = list(dict_keys(d.args[1]))
    return out + [k for k in dict_keys(d.args[2]) if k not in out]


_hmemo, _gmemo = {}, {}


def dict_has(d, k):
    r = _hmemo.get((d, k))
    if r is None:
        if d.tag == "dict":
            r = const(any(q is k for q, _ in d.args[0]))
        elif d.tag == "upd":
            r = TRUE if d.args[1] is k else dict_has(d.args[0], k)
        elif d.tag == "mut":
            r = FALSE if d.args[2][0] is k else dict_has(d.args[1], k)
        else:
            a, b = dict_has(d.args[1], k), dict_has(d.args[2], k)
            r = a if a is b else mk_or(mk_and(d.args[0], a), mk_and(mk_not(d.args[0]), b))
        _hmemo[(d, k)] = r
    return r


def dict_get(d, k):
    """value under k; meaningful only where dict_has"""
    r = _gmemo.get((d, k))
    if r is None:
        if d.tag == "dict":
            r = None
            for q, v in d.args[0]:
                if q is k:
                    r = v
        elif d.tag == "upd":
            r = d.args[2] if d.args[1] is k else dict_get(d.args[0], k)
        elif d.tag == "mut":
            r = None if d.args[2][0] is k else dict_get(d.args[1], k)
        else:
            a, b = dict_get(d.args[1], k), dict_get(d.args[2], k)
            r = b if a is None else (a if b is None else mk_ite(d.args[0], a, b))
        if r is not None:
            _gmemo[(d, k)] = r
    return r


def _clip(b, y):
    if y.tag == "ite" and y.args[0].tag == "lt":
        c, p, q = y.args
        n = t("call", t("b", "len"), (b,), ())
        if (c.args[0] is n and c.args[1] is q and p is n) or (c.args[1] is n and c.args[0] is p and q is n):
            k = q if p is n else p
            if k.tag == "c" and type(k.args[1]) is int and k.args[1] >= 0:
                return k
    return y


def _whole_split(x, k, counted=True):
    """a text cut at most n times says as much as the text cut everywhere, as far as its first parts go"""
    s = x
    if counted:
        if not (x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "len" and len(x.args[1]) == 1):
            return x
        s = x.args[1][0]
    if s.tag == "call" and s.args[0].tag == "a" and s.args[0].args[1] == "split" and len(s.args[1]) == 2 and not s.args[2] \
            and s.args[1][1].tag == "c" and type(s.args[1][1].args[1]) is int and 0 <= k and (k <= s.args[1][1].args[1] if counted else k < s.args[1][1].args[1]):
        s = t("call", s.args[0], s.args[1][:1], ())
        return t("call", x.args[0], (s,), ()) if counted else s
    return x


def _known_len(x):
    if x.tag != "call" or len(x.args) < 3:
        return None
    f, a, k = x.args[:3]
    if f.tag == "a" and f.args[1] == "fromhex" and len(a) == 1 and a[0].tag == "call" and a[0].args[0].tag == "fn" and a[0].args[0].args[0].endswith(".blake2_string") and len(a[0].args[1]) == 1 and not a[0].args[2]:
        return 32
    if f.tag == "a" and f.args[1] == "digest" and f.args[0].tag == "call" and f.args[0].args[0].tag == "ext" and f.args[0].args[0].args[0] == "hashlib.blake2b":
        n = dict(f.args[0].args[2]).get("digest_size")
        return n.args[1] if n is not None and n.tag == "c" else None
    return None


def mk_index(b, i):
    if b.tag in ("tuple", "list") and i.tag == "c" and isinstance(i.args[1], int):
        try:
            return b.args[0][i.args[1]]
        except IndexError:
            pass
    if b.tag == "cat" and i.tag == "c" and i.args[1] == -1:
        return b.args[1]
    if i.tag == "c" and is_dictish(b):
        h = dict_has(b, i)
        if h is not FALSE:
            return dict_get(b, i)
    if b.tag == "upd" and i.tag == "c" and isinstance(i.args[1], str) and b.args[1].tag == "c" and isinstance(b.args[1].args[1], str):
        return b.args[2] if b.args[1] is i else mk_index(b.args[0], i)
    if b.tag == "upd" and b.args[1] is i:
        return b.args[2]
    if i.tag == "idx" and i.args[0] is b:
        return t("elem", b)
    if b.tag == "ite":
        for x, y in (b.args[1:], b.args[:0:-1]):
            if i.tag == "idx" and x.tag in ("list", "tuple") and not x.args[0]:
                return mk_index(y, i)  # nothing can be read from the empty one
        x, y = mk_index(b.args[1], i), mk_index(b.args[2], i)
        if x.tag != "i" and y.tag != "i" or any(z.tag == "upd" and z.args[1] is i for z in b.args[1:]):
            return mk_ite(b.args[0], x, y)
    if i.tag == "c" and type(i.args[1]) is int:
        b = _whole_split(b, i.args[1], False)
    if i.tag == "slice" and _known_len(b) is not None:
        n = _known_len(b)
        lo, hi = i.args[:2]
        if lo.tag == "c" and type(lo.args[1]) is int and lo.args[1] < 0:
            lo = const(max(0, lo.args[1] + n))
        if hi.tag == "c" and type(hi.args[1]) is int and hi.args[1] < 0:
            hi = const(max(0, hi.args[1] + n))
        i = t("slice", lo, NONE if hi.tag == "c" and type(hi.args[1]) is int and hi.args[1] >= n else hi, i.args[2])
    if i.tag == "slice":
        # a slice end beyond the sequence is its end: min(len(b), k) says the same as k
        i = t("slice", *[_clip(b, y) for y in i.args])
    if b.tag == "elem" and b.args[0].tag == "zip" and i.tag == "c" and isinstance(i.args[1], int):
        z = b.args[0].args[0]
        if 0 <= i.args[1] < len(z):
            return t("elem", z[i.args[1]])
    return t("i", b, i)


# ---- linear normal form (numbers only; used by rules) ----

def linear(x):
    """-> (dict term->coef, const) treating + and - as commutative arithmetic"""
    from decimal import Decimal
    if x.tag == "c" and isinstance(x.args[1], (int,)) and not isinstance(x.args[1], bool):
        return {}, x.args[1]
    if x.tag == "op" and x.args[0] in ("+", "-"):
        d1, c1 = linear(x.args[1])
        d2, c2 = linear(x.args[2])
        s = 1 if x.args[0] == "+" else -1
        d = dict(d1)
        for k, v in d2.items():
            d[k] = d.get(k, 0) + s * v
            if d[k] == 0:
                del d[k]
        return d, c1 + s * c2
    if x.tag == "neg":
        d1, c1 = linear(x.args[0])
        return {k: -v for k, v in d1.items()}, -c1
    if x.tag == "op" and x.args[0] == "*":
        for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if p.tag == "c" and isinstance(p.args[1], int):
                d, c = linear(q)
                return {k: v * p.args[1] for k, v in d.items() if v * p.args[1]}, c * p.args[1]
    return {x: 1}, 0
