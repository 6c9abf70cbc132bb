"""Propositional reasoning about guard formulas: a small ROBDD over the atoms of
gated terms plus ordering axioms for comparisons of the same operands.  Values are only
ever touched through comparisons, so the finite set of orderings decides implication."""

from .terms import whole, T, t, const, is_const, cval, truth, mk_not, mk_and, mk_or, TRUE, FALSE, NONE, is_boolish, walk, is_strish


class TooBig(Exception):
    pass


class Search:
    """one assignment that makes all given diagrams true: clauses from the diagrams, unit propagation, backtracking"""

    def __init__(self, b, roots):
        self.b = b
        self.val = {}
        self.clauses = []
        self.watch = {}
        self.units = []
        lit = {}

        def node(f):  # literal standing for a diagram node; atoms are 2*v+1, nodes follow
            if f not in lit:
                lit[f] = base + f
                v, lo, hi = b.rev[f]
                a, n = v + 1, lit[f]
                for h, s in ((hi, -a), (lo, a)):
                    if h == 0:
                        self.clause([s, -n])
                    elif h == 1:
                        self.clause([s, n])
                    else:
                        k = node(h)
                        self.clause([s, -n, k])
                        self.clause([s, n, -k])
            return lit[f]
        base = len(b.order) + 1
        for r in roots:
            if r == 0:
                self.clause([])
            elif r != 1:
                self.clause([node(r)])
        self.nv = len(b.order)

    def clause(self, c):
        if len(c) < 2:
            self.units.append(c[0] if c else None)
            return
        i = len(self.clauses)
        self.clauses.append(c)
        for l in c[:2]:
            self.watch.setdefault(l, []).append(i)

    def value(self, l):
        v = self.val.get(abs(l))
        return None if v is None else v == (l > 0)

    def enqueue(self, l, why):
        self.val[abs(l)] = l > 0
        self.level[abs(l)] = len(self.marks)
        self.why[abs(l)] = why
        self.trail.append(l)

    def propagate(self):
        while self.head < len(self.trail):
            l = self.trail[self.head]
            self.head += 1
            w = self.watch.get(-l, [])
            keep = []
            self.watch[-l] = keep
            for n, i in enumerate(w):
                c = self.clauses[i]
                if c[0] == -l:
                    c[0], c[1] = c[1], c[0]
                v0 = self.value(c[0])
                if v0 is True:
                    keep.append(i)
                    continue
                for j in range(2, len(c)):
                    if self.value(c[j]) is not False:
                        c[1], c[j] = c[j], c[1]
                        self.watch.setdefault(c[1], []).append(i)
                        break
                else:
                    keep.append(i)
                    if v0 is False:
                        keep.extend(w[n + 1:])
                        return i
                    self.enqueue(c[0], i)
        return None

    def learn(self, i):
        """first unique implication point: (clause, level to return to)"""
        cur = len(self.marks)
        seen, out, open_, k = set(), [], 0, len(self.trail) - 1
        c, skip = self.clauses[i], None
        while True:
            for l in c:
                v = abs(l)
                if l == skip or v in seen or self.level[v] == 0:
                    continue
                seen.add(v)
                self.act[v] = self.act.get(v, 0.0) + self.inc
                if self.level[v] == cur:
                    open_ += 1
                else:
                    out.append(l)
            while abs(self.trail[k]) not in seen:
                k -= 1
            l = self.trail[k]
            k -= 1
            open_ -= 1
            if open_ == 0:
                out.insert(0, -l)
                break
            c, skip = self.clauses[self.why[abs(l)]], l
        self.inc *= 1.05
        lv = max([self.level[abs(l)] for l in out[1:]], default=0)
        return out, lv

    def back(self, lv):
        while len(self.marks) > lv:
            m = self.marks.pop()
            for l in self.trail[m:]:
                del self.val[abs(l)]
            del self.trail[m:]
        self.head = len(self.trail)

    def run(self):
        if None in self.units:
            return None
        self.level, self.why, self.trail, self.marks, self.head, self.act, self.inc = {}, {}, [], [], 0, {}, 1.0
        for u in self.units:
            v = self.value(u)
            if v is False:
                return None
            if v is None:
                self.enqueue(u, None)
        names = sorted({abs(l) for c in self.clauses for l in c} | set(range(1, self.nv + 1)))
        while True:
            i = self.propagate()
            if i is not None:
                if not self.marks:
                    return None
                c, lv = self.learn(i)
                self.back(lv)
                if len(c) == 1:
                    self.enqueue(c[0], None)
                    continue
                j = max(range(1, len(c)), key=lambda k: self.level[abs(c[k])])
                c[1], c[j] = c[j], c[1]
                self.clauses.append(c)
                for l in c[:2]:
                    self.watch.setdefault(l, []).append(len(self.clauses) - 1)
                self.enqueue(c[0], len(self.clauses) - 1)
                continue
            free = [v for v in names if v not in self.val]
            if not free:
                return {k - 1: x for k, x in self.val.items() if k <= self.nv}
            v = max(free, key=lambda x: self.act.get(x, 0.0))
            self.marks.append(len(self.trail))
            self.enqueue(-v, None)


class BDD:
    limit = None

    def __init__(self):
        self.nodes = {}
        self.low = {0: None, 1: None}
        self.rev = [None, None]
        self.cache = {}
        self.order = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.nodes.get(k)
        if n is None:
            n = len(self.rev)
            if self.limit is not None and n > self.limit:
                raise TooBig()
            self.rev.append(k)
            self.nodes[k] = n
        return n

    def var(self, key):
        if key not in self.order:
            self.order[key] = len(self.order)
        return self.mk(self.order[key], 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        vs = [self.rev[x][0] for x in (f, g, h) if x > 1]
        v = min(vs)
        def co(x, b):
            if x <= 1:
                return x
            vv, lo, hi = self.rev[x]
            if vv != v:
                return x
            return hi if b else lo
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.mk(v, lo, hi)
        self.cache[k] = r
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def conj(self, f, g):
        return self.ite(f, g, 0)

    def disj(self, f, g):
        return self.ite(f, 1, g)

    def holds(self, f, m):
        while f > 1:
            v, lo, hi = self.rev[f]
            f = hi if m.get(v, False) else lo
        return f == 1

    def sat_one(self, f):
        if f == 0:
            return None
        out = {}
        while f > 1:
            v, lo, hi = self.rev[f]
            if lo != 0:
                out[v] = False
                f = lo
            else:
                out[v] = True
                f = hi
        return out


def _int_term(x):
    return (x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "len") or (
        x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "int") or (
        x.tag == "i" and x.args[1].tag == "c" and x.args[1].args[1] in (0, 2) and x.args[0].tag == "call" and x.args[0].args[0].tag == "a"
        and x.args[0].args[0].args[1] == "as_tuple") or (
        x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "bit_length") or _is_count(x) or x.tag == "v" and x.args[0] in whole


def _is_count(x):
    return x.tag == "sum" and x.args[0].tag == "map" and x.args[0].args[0] is const(1)


def _is_len(x):
    return _is_count(x) or x.tag == "call" and ((x.args[0].tag == "b" and x.args[0].args[0] == "len") or (x.args[0].tag == "a" and x.args[0].args[1] == "bit_length"))


class Logic:
    """int_terms: predicate telling which terms are known to be integers"""

    def __init__(self, int_terms=None, axioms=()):
        self.bdd = BDD()
        self.atoms = {}
        self.int_terms = int_terms
        self.extra = list(axioms)

    def is_int(self, x):
        return _int_term(x) or bool(self.int_terms and self.int_terms(x))

    def f(self, x):
        tv = truth(x)
        if tv is not None:
            return 1 if tv else 0
        g, a = x.tag, x.args
        if g == "not":
            return self.bdd.neg(self.f(a[0]))
        if g == "and":
            r = 1
            for y in a[0]:
                r = self.bdd.conj(r, self.f(y))
            return r
        if g == "or":
            r = 0
            for y in a[0]:
                r = self.bdd.disj(r, self.f(y))
            return r
        if g == "ite":
            return self.bdd.ite(self.f(a[0]), self.f(a[1]), self.f(a[2]))
        if g == "lt":
            return self._lt(a[0], a[1])
        if g == "eq":
            p, q = a
            if is_const(p) and not is_const(q):
                p, q = q, p
            if q.tag == "c":
                if isinstance(cval(q), bool):
                    # x == True, only for boolish x
                    if is_boolish(p):
                        r = self.f(p)
                        return r if cval(q) else self.bdd.neg(r)
                if _num(q) and self.is_int(p):
                    # not < and not >
                    lo = self._lt(p, q)
                    hi = self._lt(q, p)
                    return self.bdd.conj(self.bdd.neg(lo), self.bdd.neg(hi))
            elif is_boolish(p) and is_boolish(q):
                return self.bdd.ite(self.f(p), self.f(q), self.bdd.neg(self.f(q)))
            return self._atom(x)
        if g == "in" and a[1].tag in ("list", "tuple", "set"):
            r = 0
            from .terms import mk_eq
            for y in a[1].args[0]:
                r = self.bdd.disj(r, self.f(mk_eq(a[0], y)))
            return r
        if g == "isinst":
            r = 0
            for c in a[1]:
                r = self.bdd.disj(r, self._atom(t("isinst", a[0], (c,))))
            return r
        if g == "call" and a[0].tag == "b" and a[0].args[0] == "bool" and len(a[1]) == 1:
            return self.f(a[1][0])
        if g == "call" and a[0].tag == "b" and a[0].args[0] == "len" and len(a[1]) == 1:
            return self.bdd.neg(self._lt(x, const(1)))
        if self.is_int(x):
            return self.bdd.neg(self.bdd.conj(self.bdd.neg(self._lt(x, const(0))), self._lt(x, const(1))))
        return self._atom(x)

    def _lt(self, p, q):
        # integer-valued terms against integer constants: normalise to  p < c
        if is_const(q) and _num(q) and self.is_int(p):
            import math
            c = cval(q)
            c = c if isinstance(c, int) else math.ceil(c)
            if c <= 0 and _is_len(p):
                return 0
            return self._atom(t("lt", p, const(int(c))))
        if is_const(p) and _num(p) and self.is_int(q):
            import math
            c = cval(p)
            return self.bdd.neg(self._lt(q, const(math.floor(c) + 1)))
        if is_const(p) and is_const(q):
            from .terms import mk_lt
            r = mk_lt(p, q)
            if is_const(r):
                return 1 if cval(r) else 0
        return self._atom(t("lt", p, q))

    def _atom(self, x):
        # lift gates out of atoms:  p(c ? a : b)  =  c ? p(a) : p(b)
        g = self._gate(x)
        if g is not None:
            from .terms import subst
            a = subst(x, lambda y: g.args[1] if y is g else None)
            b = subst(x, lambda y: g.args[2] if y is g else None)
            return self.bdd.ite(self.f(g.args[0]), self.f(a), self.f(b))
        if x.uid not in self.atoms:
            self.atoms[x.uid] = x
        return self.bdd.var(x.uid)

    _gates = {}

    def _gate(self, x):
        if x.uid in Logic._gates:
            return Logic._gates[x.uid]
        r = None
        if x.tag not in ("fold", "map", "sum", "exc"):
            # inside a quantifier: only what its sequence is chosen by
            stack = [(y, x.tag == "exists") for y in (x.args[:1] if x.tag == "exists" else x.args)]
            seen = set()
            while stack:
                y, q = stack.pop()
                if isinstance(y, tuple):
                    stack.extend((z, q) for z in y)
                elif isinstance(y, T):
                    if y.uid in seen:
                        continue
                    seen.add(y.uid)
                    if y.tag == "ite":
                        if not q or not any(z.tag in ("elem", "idx", "phi") for z in walk(y.args[0])):
                            r = y
                            break
                        continue
                    if y.tag == "exists":
                        stack.append((y.args[0], True))
                    elif y.tag not in ("fold", "map", "sum", "exc"):
                        stack.extend((z, q) for z in y.args)
        Logic._gates[x.uid] = r
        return r

    def axioms(self):
        r = 1
        for x in self.axiom_list():
            r = self.bdd.conj(r, x)
        return r

    def under_axioms(self, x):
        """x together with everything known about its atoms; stops as soon as nothing is left"""
        if x == 0:
            return 0
        b = self.bdd
        rest = [r for r in self.axiom_list() if r != 1]
        allx = [x] + rest
        b.limit = len(b.rev) + 20000
        try:
            while x != 0:
                m = b.sat_one(x)
                bad = [r for r in rest if not b.holds(r, m)]
                if not bad:
                    return x
                for r in bad[:4]:
                    x = b.conj(x, r)
                    rest.remove(r)
                    if x == 0:
                        break
            return x
        except TooBig:
            b.limit = None
            m = Search(b, allx).run()
            if m is None:
                return 0
            r = 1
            for v, k in sorted(m.items(), reverse=True):
                r = b.mk(v, 0, r) if k else b.mk(v, r, 0)
            return r
        finally:
            b.limit = None

    def axiom_list(self):
        b = self.bdd
        while True:
            pend = [a for a in self.atoms.values()]
            n = len(pend)
            pairs = []
            by_operand = {}
            for a in pend:
                if a.tag == "lt" or a.tag == "eq":
                    for o in a.args:
                        by_operand.setdefault(o.uid, []).append(a)
                elif a.tag in ("is", "isinst", "hasattr"):
                    by_operand.setdefault(a.args[0].uid, []).append(a)
                elif a.tag == "in":
                    by_operand.setdefault(a.args[0].uid, []).append(a)
                by_operand.setdefault(a.uid, []).append(a)
                # truthiness of a container  <->  len > 0
                for y in ():
                    pass
            ax = []
            for group in by_operand.values():
                for i, p in enumerate(group):
                    for q in group[i + 1:]:
                        if p is not q:
                            pairs.append((p, q))
            for p, q in pairs:
                r = self._rel(p, q)
                if r != 1:
                    ax.append(r)
            # equality is transitive
            eqs = [a for a in pend if a.tag == "eq"]
            if len(eqs) < 60:
                from .terms import mk_eq
                for i, p in enumerate(eqs):
                    for q in eqs[i + 1:]:
                        for m in p.args:
                            if m in q.args and not is_const(m):
                                x = p.args[1] if p.args[0] is m else p.args[0]
                                y = q.args[1] if q.args[0] is m else q.args[0]
                                r = mk_eq(x, y)
                                if r.tag == "eq" and r.uid in self.atoms:
                                    P, Q, R = b.var(p.uid), b.var(q.uid), b.var(r.uid)
                                    ax.append(b.disj(b.neg(b.conj(P, Q)), R))
                                    ax.append(b.disj(b.neg(b.conj(P, R)), Q))
                                    ax.append(b.disj(b.neg(b.conj(Q, R)), P))
            for a in list(pend):
                if a.tag == "lt":
                    for o in a.args:
                        if _is_len(o) and o.tag == "call" and o.args[1]:
                            base = o.args[1][0]
                            if base.uid in self.atoms:
                                ne = b.neg(self._lt(o, const(1)))
                                v = b.var(base.uid)
                                ax.append(b.ite(v, ne, b.neg(ne)))
                    # among integers:  x < c + 1  is  x <= c
                    for x, c, up in ((a.args[0], a.args[1], True), (a.args[1], a.args[0], False)):
                        if is_const(c) and type(cval(c)) is int and not is_const(x):
                            k = t("isinst", x, ("b:int",))
                            o = t("lt", const(cval(c) - 1), x) if up else t("lt", x, const(cval(c) + 1))
                            if k.uid in self.atoms and o.uid in self.atoms:
                                ax.append(b.disj(b.neg(b.var(k.uid)), b.ite(b.var(a.uid), b.neg(b.var(o.uid)), b.var(o.uid))))
                    # lt(a,b) equality triple
                    r = t("lt", a.args[1], a.args[0])
                    from .terms import mk_eq
                    e = mk_eq(a.args[0], a.args[1])
                    if isinstance(e, T) and e.uid in self.atoms and r.uid in self.atoms:
                        x, y, z = b.var(a.uid), b.var(r.uid), b.var(e.uid)
                        ax.append(b.disj(x, b.disj(y, z)))
                # what equals a text is one
                if a.tag == "eq":
                    for x, c in (a.args, a.args[::-1]):
                        k = t("isinst", x, ("b:str",))
                        if c.tag == "c" and isinstance(cval(c), str) and x.tag in ("v", "i") and k.uid in self.atoms:
                            ax.append(b.disj(b.neg(b.var(a.uid)), b.var(k.uid)))
                # the only false text, number or byte string
                if a.tag == "eq":
                    for x, c in (a.args, a.args[::-1]):
                        if is_const(c) and x.uid in self.atoms and cval(c) is not None and not cval(c):
                            v = cval(c)
                            cs = "b:str" if isinstance(v, str) else "b:bytes" if isinstance(v, bytes) else "b:int" if type(v) is int else None
                            if cs is None:
                                continue
                            k = t("isinst", x, (cs,))
                            known = 1 if (isinstance(v, str) and is_strish(x)) or (type(v) is int and self.is_int(x)) else \
                                b.var(k.uid) if k.uid in self.atoms else 0
                            if known:
                                ax.append(b.disj(b.neg(known), b.disj(b.var(x.uid), b.var(a.uid))))
            for e in self.extra:
                ax.append(self.f(e))
            if len(self.atoms) == n:
                return ax

    def _rel(self, p, q):
        b = self.bdd
        P, Q = b.var(p.uid), b.var(q.uid)

        def excl():
            return b.neg(b.conj(P, Q))

        def impl(x, y):
            return b.disj(b.neg(x), y)

        if p.tag == "lt" and q.tag == "lt":
            a, c = p.args
            d, e = q.args
            if a is e and c is d:
                return excl()
            if a is d and is_const(c) and is_const(e):
                k = _cmp(c, e)
                if k is None:
                    return 1
                return impl(P, Q) if k <= 0 else impl(Q, P)
            if c is e and is_const(a) and is_const(d):  # a<c , d<c
                k = _cmp(a, d)
                if k is None:
                    return 1
                return impl(Q, P) if k <= 0 else impl(P, Q)
            if a is e and is_const(c) and is_const(d):  # x<c , d<x
                k = _cmp(d, c)
                if k is None:
                    return 1
                return excl() if k >= 0 else b.disj(P, Q)
            if c is d and is_const(a) and is_const(e):  # a<x , x<e
                k = _cmp(a, e)
                if k is None:
                    return 1
                return excl() if k >= 0 else b.disj(P, Q)
            # transitivity with shared middle is left out (sound: weaker axioms)
            return 1
        if {p.tag, q.tag} == {"lt", "eq"}:
            if p.tag == "eq":
                p, q, P, Q = q, p, Q, P
            a, c = p.args
            d, e = q.args
            if (a is d and c is e) or (a is e and c is d):
                return b.neg(b.conj(P, Q))
            # x == k  with  x < c / c < x
            if is_const(d) or is_const(e):
                k, x = (d, e) if is_const(d) else (e, d)
                if a is x and is_const(c):
                    m = _cmp(k, c)
                    if m is None:
                        return 1
                    return impl(Q, P if m < 0 else b.neg(P))
                if c is x and is_const(a):
                    m = _cmp(a, k)
                    if m is None:
                        return 1
                    return impl(Q, P if m < 0 else b.neg(P))
            return 1
        if p.tag == "eq" and q.tag == "eq":
            for a, c in (p.args, p.args[::-1]):
                for d, e in (q.args, q.args[::-1]):
                    if a is d and c.tag == "a" and e.tag == "a" and self.apart is not None and self.apart(c, e):
                        return excl()
                    if a is d and is_const(c) and is_const(e):
                        try:
                            if cval(c) != cval(e):
                                return excl()
                        except Exception:
                            pass
            return 1
        if p.tag == "is" or q.tag == "is":
            if q.tag == "is":
                p, q, P, Q = q, p, Q, P
            if p.args[1] is NONE:
                x = p.args[0]
                if q is x:
                    return excl()
                if q.tag == "isinst" and q.args[0] is x:
                    return excl()
                if q.tag == "eq" and x in q.args:
                    o = q.args[0] if q.args[1] is x else q.args[1]
                    if is_const(o) and o is not NONE:
                        return excl()
            return 1
        if p.tag == "isinst" and q.tag == "isinst" and p.args[0] is q.args[0]:
            c, d = p.args[1][0], q.args[1][0]
            r = self._clsrel(c, d)
            if r == "sub":
                return impl(P, Q)
            if r == "sup":
                return impl(Q, P)
            if r == "disj":
                return excl()
            return 1
        if {p.tag, q.tag} == {"isinst", "hasattr"}:
            if q.tag == "isinst":
                p, q, P, Q = q, p, Q, P
            if p.args[0] is q.args[0] and is_const(q.args[1]):
                m = cval(q.args[1])
                c = p.args[1][0]
                import builtins
                bt = getattr(builtins, c[2:], None) if c.startswith("b:") else None
                if isinstance(bt, type):
                    return impl(P, Q if hasattr(bt, m) else b.neg(Q))
            return 1
        # x == const  with truthiness of x
        for u, v, U, V in ((p, q, P, Q), (q, p, Q, P)):
            if u.tag == "eq" and v in u.args:
                o = u.args[0] if u.args[1] is v else u.args[1]
                if is_const(o):
                    return impl(U, V if bool(cval(o)) else b.neg(V))
        return 1

    apart = None  # hook: two named members of one class that stand for different values
    subclass = None  # hook: (qual, qual) -> 'sub' | 'sup' | 'disj' | None

    def _clsrel(self, c, d):
        bt = {"b:bool": ("b:int",)}
        if c in bt and d in bt[c]:
            return "sub"
        if d in bt and c in bt[d]:
            return "sup"
        if c.startswith("b:") and d.startswith("b:"):
            return "disj"
        if Logic.subclass:
            return Logic.subclass(c, d)
        return None

    # -- queries --
    def implies(self, p, q):
        if self.extra or self.int_terms:
            return self._implies(p, q)
        k = (p.uid, q.uid)
        if k not in Logic._memo:
            Logic._memo[k] = Logic()._implies(p, q)
        return Logic._memo[k]

    _memo = {}

    def _implies(self, p, q):
        P, Q = self.f(p), self.f(q)
        return self.under_axioms(self.bdd.conj(P, self.bdd.neg(Q))) == 0

    def sat(self, p):
        return not self.implies(p, FALSE)

    def equiv(self, p, q):
        return self.implies(p, q) and self.implies(q, p)

    def counter(self, p, q):
        """an assignment (list of 'atom'/'!atom') with p true and q false, or None"""
        P, Q = self.f(p), self.f(q)
        m = self.bdd.sat_one(self.under_axioms(self.bdd.conj(P, self.bdd.neg(Q))))
        if m is None:
            return None
        inv = {v: self.atoms[k] for k, v in self.bdd.order.items()}
        return [("" if val else "not ") + repr(inv[v]) for v, val in sorted(m.items())]


def _num(x):
    from decimal import Decimal
    return isinstance(cval(x), (int, float, Decimal)) and not isinstance(cval(x), bool)


def _cmp(a, b):
    try:
        x, y = cval(a), cval(b)
        return (x > y) - (x < y)
    except Exception:
        return None


def implies(p, q, **kw):
    return Logic(**kw).implies(p, q)


def sat(p, **kw):
    return Logic(**kw).sat(p)


def equiv(p, q, **kw):
    return Logic(**kw).equiv(p, q)
