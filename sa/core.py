"""Check context: obligations, findings, evidence."""

import json
import os
import time

from .model import Repo, AnalysisBroken
from .interp import Interp, Policy
from .terms import *
from .terms import T, t
from .logic import Logic
from . import hints as _h

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TFCHAIN_REPO", "/repo")

_repo = None


def get_repo():
    global _repo
    if _repo is None:
        _repo = Repo(REPO)
        _repo.splice(inventory())
        _repo.normalise()
        flags.update(_repo.defaulted(bool))
        whole.update(_repo.defaulted(int))
        Logic.apart = staticmethod(lambda c, e: _apart(_repo, c, e))
        Logic.subclass = staticmethod(lambda c, d: _clsrel(_repo, c, d))
    return _repo


def _apart(repo, c, e):
    p, q = c.args[0], e.args[0]
    if p is not q or p.tag != "cls":
        return False
    m = repo.named_members(p.args[0])
    return c.args[1] in m and e.args[1] in m and m[c.args[1]] != m[e.args[1]]


def _clsrel(repo, c, d):
    if c in repo.classes and d in repo.classes:
        if repo.is_sub(c, d):
            return "sub"
        if repo.is_sub(d, c):
            return "sup"
        # no common subclass known -> disjoint
        if not (set(repo.subclasses(c)) & set(repo.subclasses(d))):
            return "disj"
        return None
    if c.startswith("b:") != d.startswith("b:"):
        q = d if c.startswith("b:") else c
        if q in repo.classes and not any(x.startswith(("b:", "ext:", "?")) and x not in ("ext:abc.ABC", "b:object") for x in repo.mro(q)):
            return "disj"
    return None


def inventory():
    p = os.path.join(VERIF, "sa", "inventory.json")
    try:
        return set(json.load(open(p)))
    except FileNotFoundError:
        return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.repo = get_repo()
        self.known = inventory()
        self.obligations = 0
        self.obs = []
        self.violations = []
        self.funcs = set()
        self.events = 0
        self.notes = []
        self.t0 = time.time()

    # -- analysis --
    def interp(self, modules=(), opaque=(), inline=(), init=(), props=True, opaque_names=(), max_depth=14):
        p = Policy(modules=modules, opaque=opaque, inline=inline, known=self.known, init=init, props=props,
                   opaque_names=opaque_names, max_depth=max_depth)
        return Interp(self.repo, p, hints=_h.HINTS)

    def run(self, fn, modules=(), opaque=(), inline=(), init=(), props=True, opaque_names=(), max_depth=14, **kw):
        it = self.interp(modules, opaque, inline, init, props, opaque_names, max_depth)
        r = it.run(fn, **kw)
        self.funcs.add(r.fn.qual)
        self.funcs |= it.inlined
        self.events += len(it.events)
        return r

    # -- verdicts --
    def ob(self, key, ok, where="", msg=""):
        """one decided obligation; key is a stable construct identifier"""
        self.obligations += 1
        self.obs.append((key, bool(ok)))
        if not ok:
            if callable(msg):
                msg = msg()
            self.violations.append({"key": key, "where": where, "msg": msg})
        return ok

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def floor(self, n, what="obligations"):
        if self.obligations < n:
            raise AnalysisBroken("%s: only %d %s decided, expected at least %d" % (self.prop, self.obligations, what, n))


def simplify(x, assume, int_terms=None):
    """resolve gates of x whose condition is decided by the formula `assume`"""
    L = Logic(int_terms=int_terms)
    A = L.f(assume)
    memo = {}

    def dec(c):
        if c.uid in memo:
            return memo[c.uid]
        P = L.f(c)
        b = L.bdd
        r = None
        if L.under_axioms(b.conj(A, b.neg(P))) == 0:
            r = True
        elif L.under_axioms(b.conj(A, P)) == 0:
            r = False
        memo[c.uid] = r
        return r

    def go(y):
        if isinstance(y, T) and y.tag == "ite":
            d = dec(y.args[0])
            if d is True:
                return subst(y.args[1], go)
            if d is False:
                return subst(y.args[2], go)
        return None
    return subst(x, go)


def rename(x, mapping):
    """replace whole subterms"""
    return subst(x, lambda y: mapping.get(y))


def short(x, n=int(__import__("os").environ.get("SHORT", "240"))):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
