"""Equivalence of two regular expressions (full match), by their automata.  The patterns are parsed, nothing is matched."""

import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:
    import sre_parse as sp, sre_constants as sc

MAX = 0x10FFFF


class Unsupported(Exception):
    pass


def _ranges(av, flags=0):
    """sorted ranges of a character set"""
    rs, neg = [], False
    for op, a in av:
        if op == sc.NEGATE:
            neg = True
        elif op == sc.LITERAL:
            rs.append((a, a))
        elif op == sc.RANGE:
            rs.append(a)
        else:
            raise Unsupported(str(op))
    if neg:
        out, lo = [], 0
        for a, b in sorted(rs):
            if a > lo:
                out.append((lo, a - 1))
            lo = max(lo, b + 1)
        if lo <= MAX:
            out.append((lo, MAX))
        rs = out
    return tuple(sorted(rs))


class Nfa:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, items, s):
        for op, av in items:
            s = self.one(op, av, s)
        return s

    def one(self, op, av, s):
        if op == sc.LITERAL:
            e = self.new()
            self.tr[s].append((((av, av),), e))
            return e
        if op == sc.NOT_LITERAL:
            e = self.new()
            self.tr[s].append((_ranges([(sc.NEGATE, None), (sc.LITERAL, av)]), e))
            return e
        if op == sc.IN:
            e = self.new()
            self.tr[s].append((_ranges(av), e))
            return e
        if op == sc.ANY:
            e = self.new()
            self.tr[s].append((((0, 9), (11, MAX)), e))
            return e
        if op == sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags")
            return self.build(av[3], s)
        if op == sc.BRANCH:
            e = self.new()
            for b in av[1]:
                q = self.new()
                self.eps[s].append(q)
                self.eps[self.build(b, q)].append(e)
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                s = self.build(sub, s)
            if hi == sc.MAXREPEAT:
                q = self.new()
                self.eps[s].append(q)
                x = self.build(sub, q)
                self.eps[x].append(q)
                e = self.new()
                self.eps[q].append(e)
                return e
            e = self.new()
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.build(sub, s)
                self.eps[s].append(e)
            return e
        if op == sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if s != 0:
                raise Unsupported("anchor")
            return s
        if op == sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            # under fullmatch the end of the string is the only position left; only accepted last
            e = self.new()
            self.eps[s].append(e)
            self.ends = getattr(self, "ends", set()) | {e}
            return e
        raise Unsupported(str(op))


def _nfa(p):
    n = Nfa()
    s = n.new()
    t = sp.parse(p)
    if t.state.flags & ~re.UNICODE:
        raise Unsupported("flags")
    items = list(t)
    if any(op == sc.AT and av in (sc.AT_END, sc.AT_END_STRING) for op, av in items[:-1]):
        raise Unsupported("anchor")
    if any(op == sc.AT for op, av in items[1:-1]):
        raise Unsupported("anchor")
    return n, n.build(items, s)


def _close(n, ss):
    out, todo = set(ss), list(ss)
    while todo:
        for q in n.eps[todo.pop()]:
            if q not in out:
                out.add(q)
                todo.append(q)
    return frozenset(out)


def equivalent(p, q, limit=200000):
    """True / False, or None when a construct is not supported"""
    if p == q:
        return True
    try:
        (a, ea), (b, eb) = _nfa(p), _nfa(q)
    except (Unsupported, re.error):
        return None
    seen, todo = set(), [(_close(a, [0]), _close(b, [0]))]
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if len(seen) > limit:
            return None
        if (ea in x) != (eb in y):
            return False
        cuts = {0, MAX + 1}
        for n, ss in ((a, x), (b, y)):
            for s in ss:
                for rs, _ in n.tr[s]:
                    for lo, hi in rs:
                        cuts.add(lo)
                        cuts.add(hi + 1)
        for c in sorted(cuts)[:-1]:
            step = []
            for n, ss in ((a, x), (b, y)):
                step.append(_close(n, [d for s in ss for rs, d in n.tr[s] if any(lo <= c <= hi for lo, hi in rs)]))
            if step[0] or step[1]:
                todo.append(tuple(step))
    return True
