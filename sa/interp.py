"""Gated value analysis: an abstract interpreter over the syntax tree that maps every
expression to a hash-consed value term and every event (call, store, raise, return) to the
guard formula under which it happens.  Joins become if-then-else gates, loops are summarised
(map / sum / exists / fold), repository helpers are inlined through the resolved call graph.
Nothing of the analysed program is executed."""

import ast
import builtins as _bi

from .model import Repo, Func, AnalysisBroken
from .logic import Logic
from . import terms
from .terms import *
from .terms import T, t

sys_builtins = set(dir(_bi))


STR_FOLD = {"strip", "lstrip", "rstrip", "lower", "upper", "split", "startswith", "endswith", "isdigit"}


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "pc", "loops", "where", "seq", "res", "stack", "caught", "obj",
                 "attr", "val", "node", "inlined", "tries", "heap", "ren", "envs", "lids", "safe", "after")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        if self.kind == "call":
            return "[%s] call %s(%s) if %r" % (self.where, self.name, ", ".join(
                [repr(a) for a in self.args] + ["%s=%r" % kv for kv in self.kw]), self.pc)
        if self.kind == "store":
            return "[%s] store %r.%s := %r if %r" % (self.where, self.obj, self.attr, self.val, self.pc)
        return "[%s] %s %s %r if %r" % (self.where, self.kind, self.name, self.val, self.pc)

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        for k, v in self.kw:
            if k == name:
                return v
        return default


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self, pc=None):
        return State(dict(self.env), dict(self.heap), self.pc if pc is None else pc)


class Frame:
    def __init__(self, func, module, cls, parent=None):
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.returns = []     # (pc relative to frame, value, heap)
        self.loops = []       # active loop records
        self.closure = None


class LoopRec:
    def __init__(self):
        self.breaks = []
        self.continues = []
        self.exits = []      # (pc rel to loop body, kind)


class Lam:
    def __init__(self, node, env, frame, n):
        self.node, self.env, self.frame, self.n = node, env, frame, n


EXC_BASE = {n: getattr(_bi, n) for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}

CONTAINER_METHODS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"}


class Policy:
    """what to inline.  modules: module-name prefixes to inline; opaque: quals or method names kept opaque;
    inline: quals always inlined; known: function inventory (functions outside it are new helpers: inlined)"""

    def __init__(self, modules=(), opaque=(), inline=(), known=None, init=(), max_depth=14, props=True, opaque_names=()):
        self.modules = tuple(modules)
        self.opaque = set(opaque)
        self.opaque_names = set(opaque_names)
        self.inline = set(inline)
        self.known = known
        self._helpers = {}
        self.init = set(init)
        self.max_depth = max_depth
        self.props = props

    def want(self, fn):
        q = fn.qual
        if q in self.inline:
            return True
        if q in self.opaque or fn.node.name in self.opaque_names and (self.known is None or q in self.known):
            return False
        if self.known is not None and q not in self.known:
            return True
        return any(fn.module.name == m or fn.module.name.startswith(m + ".") or q.startswith(m + ".") for m in self.modules)


class LoopStack(list):
    """the sequences being iterated, with a number for each loop (two loops over one sequence are not one loop)"""

    def __init__(self):
        super().__init__()
        self.ids, self.n = [], 0

    def append(self, x):
        super().append(x)
        self.n += 1
        self.ids.append(self.n)

    def pop(self):
        self.ids.pop()
        return super().pop()

    def cut(self, xs):
        self[:] = xs
        del self.ids[len(xs):]


def _apart(p, q):
    """a condition that tells the paths of p from those of q: what both have in common says nothing"""
    a = p.args[0] if p.tag == "and" else (p,)
    b = q.args[0] if q.tag == "and" else (q,)
    r = [x for x in a if x not in b]
    return mk_and(*r) if r and len(r) < len(a) else p


def _settled(v, fact):
    L = Logic()
    memo = {}

    def atoms(x, out):
        if x.tag in ("and", "or"):
            for y in x.args[0]:
                atoms(y, out)
        elif x.tag == "not":
            atoms(x.args[0], out)
        elif x.tag in ("eq", "lt", "is", "isinst", "in") and x not in out:
            out.append(x)
        return out

    def pick(c):
        if c.uid not in memo:
            memo[c.uid] = c
            for y in sorted(atoms(mk_and(c, fact), []), key=lambda x: x.uid):
                z = next((z for z in (y, mk_not(y)) if L.implies(mk_and(fact, c), z) and L.implies(mk_and(fact, z), c)), None)
                if z is not None:
                    memo[c.uid] = z
                    break
        return memo[c.uid]

    def go(y):
        if y.tag == "ite":
            c = pick(y.args[0])
            if c is not y.args[0]:
                return mk_ite(c, subst(y.args[1], go), subst(y.args[2], go))
        return None
    return subst(v, go) if v.tag == "ite" else v


def is_len(x):
    return x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "len" and len(x.args[1]) == 1


# terms that are surely a list, tuple, set or text-free sequence: true exactly when something is in it
COLLECTIONS = ("set", "setof", "map", "sorted", "list")


def _each(x):
    """a sequence of which only the elements count"""
    if x.tag == "map" and x.args[2] is TRUE and x.args[0].tag == "elem" and x.args[0].args[0] is x.args[1]:
        return x.args[1]
    return x


def _kept(g):
    """the attribute a property only hands out"""
    body = [x for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    a = g.node.args.args
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) \
            and len(a) == 1 and body[0].value.value.id == a[0].arg and body[0].value.attr.startswith("_"):
        return body[0].value.attr
    return None


def _conjuncts(x):
    if x.tag == "and":
        return [y for z in x.args[0] for y in _conjuncts(z)]
    return [x]


class Interp:
    def __init__(self, repo, policy=None, hints=None, budget=400000):
        self.built = set()
        terms.gives = self._gives
        terms.given = self._given_to
        terms.padded = self._padded
        self.repo = repo
        self.policy = policy or Policy()
        self.hints = hints or {}
        self.events = []
        self.prefix = [TRUE]      # guard prefix stack (callers, loops)
        self.loop_iters = LoopStack()      # stack of iter terms
        self.tries = []           # stack of try records
        self.stack = []           # function stack for recursion/where
        self.types = {}           # term uid -> class qual
        self.lams = {}
        self.whiles = {}          # loop node -> number in order of first execution
        self.rewritten = {}
        self.dup = {}
        self.budget = budget
        self.inlined = set()
        self.exc_n = 0
        self._expr_cache = {}
        self._params = {}
        self.phi_init = {}
        self._expr_busy = set()
        self.value_classes = None

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None, kw=None, self_cls=None, self_term=None, types=None, heap=None):
        """interpret fn with symbolic parameters; returns Result"""
        if isinstance(fn, str):
            fn = self.repo.fn(fn)
        for k, v in (types or {}).items():
            self.types[k.uid if isinstance(k, T) else var(k).uid] = v
        env = {}
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = dict(args or {})
        if fn.kind in ("method", "getter", "setter", "deleter") and names:
            st = self_term if self_term is not None else var("self")
            env[names[0]] = st
            c = self_cls or (fn.cls.qual if fn.cls else None)
            if c:
                self.types.setdefault(st.uid, c)
            names = names[1:]
        elif fn.kind == "classmethod" and names:
            env[names[0]] = t("cls", self_cls or fn.cls.qual)
            names = names[1:]
        for n in names + [x.arg for x in a.kwonlyargs]:
            env[n] = args.get(n, var(n))
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, var(a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, var(a.kwarg.arg))
        heap = dict(heap or {})
        val, st = self._run_body(fn, env, heap)
        return Result(self, fn, val, st)

    def _run_body(self, fn, env, heap, closure=None):
        fr = Frame(fn, fn.module, fn.cls)
        fr.closure = closure
        self.stack.append(fr)
        st = State(env, heap, TRUE)
        node = fn.node
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, st)
            fr.returns.append((st.pc, v, st.heap))
            st = None
        else:
            st = self.block(node.body, st)
            if st is not None and st.pc is not FALSE:
                fr.returns.append((st.pc, NONE, st.heap))
                self._event(kind="return", val=NONE, st=st, node=node, implicit=True)
        self.stack.pop()
        # merge exits
        if not fr.returns:
            return None, None
        pc, val, hp = fr.returns[-1]
        hp = dict(hp)
        for p, v, h in reversed(fr.returns[:-1]):
            c = _apart(p, pc)
            val = mk_ite(c, v, val)
            hp = self._merge_heap(c, h, hp)
            pc = mk_or(p, pc)
        return val, State({}, hp, pc)

    # ------------------------------------------------------------------ helpers
    def _merge_heap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            b, n = (h1.get(k) or h2.get(k))[:2]
            d = attr(b, n)
            v1 = h1[k][2] if k in h1 else d
            v2 = h2[k][2] if k in h2 else d
            out[k] = (b, n, mk_ite(c, v1, v2))
        return out

    def abs_pc(self, pc):
        return mk_and(*(self.prefix + [pc]))

    def where(self, node):
        fr = self.stack[-1] if self.stack else None
        return "%s:%d" % (fr.module.rel if fr else "?", getattr(node, "lineno", 0))

    def _event(self, kind, st, node, implicit=False, **k):
        if kind in ("call", "store", "index"):
            k["heap"] = dict(st.heap)
            if self.tries:
                k["envs"] = {id(q): q.env for q in self.tries}
        e = Event(kind=kind, pc=self.abs_pc(st.pc), loops=tuple(self.loop_iters), lids=tuple(self.loop_iters.ids), where=self.where(node),
                  seq=len(self.events), stack=tuple(f.func.qual for f in self.stack), node=node,
                  tries=tuple(id(x) for x in self.tries), **k)
        self.events.append(e)
        return e

    def cond(self, x):
        """normalise a value to its truth condition"""
        if x.tag == "new":
            c = x.args[0]
            if not (self.repo.lookup(c, "__len__") or self.repo.lookup(c, "__bool__")):
                return TRUE
        if x.tag == "ite":
            c, p, q = x.args[0], self.cond(x.args[1]), self.cond(x.args[2])
            if p is c and q is c:
                return c
            if p is c:
                return mk_or(c, q)
            if q is c:
                return mk_and(c, p)
            return mk_ite(c, p, q)
        if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "bool" and len(x.args[1]) == 1:
            return self.cond(x.args[1][0])
        tv = truth(x)
        if tv is not None:
            return const(tv)
        if self._collection(x):
            return mk_lt(const(0), self._builtin("len", [x], [], None, None))
        return x

    def _listish(self, x):
        return x.tag == "a" and self.repo.list_getter(x.args[1])

    def _collection(self, x):
        """surely a list or a set"""
        x = self._start(x)
        if x.tag == "ite":
            return self._collection(x.args[1]) and self._collection(x.args[2])
        if x.tag == "op" and x.args[0] == "+":
            return self._collection(x.args[1]) and self._collection(x.args[2])
        return x.tag in COLLECTIONS or x.tag == "a" and self.repo.list_getter(x.args[1])

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.pc is FALSE:
                return None
            self.budget -= 1
            if self.budget < 0:
                raise AnalysisBroken("analysis budget exhausted in %s" % (self.stack[0].func.qual if self.stack else "?"))
            if self.tries:
                fr = self.stack[-1]
                for q in self.tries:
                    if q.frame is fr:
                        q.env = dict(st.env)
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st if st.pc is not FALSE else None

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for k, r in self.repo.local_imports(self.stack[-1].module, s).items():
            st.env[k] = self._ent(r, k)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self._mklam(s, st)
        return st

    def s_Global(self, s, st):
        return st

    def _mklam(self, node, st):
        n = len(self.lams)
        key = (id(node),)
        fr = self.stack[-1]
        self.lams[n] = Lam(node, dict(st.env), fr, n)
        return t("lam", n)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.pc is FALSE:
            return None
        self._event(kind="return", val=v, st=st, node=s)
        fr = self.stack[-1]
        pc, v2 = st.pc, v
        for lr, it in reversed(fr.loops):
            pc0 = pc
            pc = self._exists(it, pc0) if it is not None else pc0
            v2 = first_one(v2, it, pc0)
            lr.exits.append((pc0, "return"))
        # pc is relative to the innermost loop; conjoin outer loop-entry guards
        pc = self._outer(fr, pc)
        fr.returns.append((pc, v2, dict(st.heap)))
        return None

    def _outer(self, fr, pc):
        for lr, it in reversed(fr.loops):
            pc = mk_and(lr.entry_pc, pc) if lr.entry_pc is not None else pc
        return pc

    def s_Raise(self, s, st):
        exc = None
        name = None
        if s.exc is None:
            name = "reraise"
        else:
            exc = self.ev(s.exc, st)
            if st.pc is FALSE:
                return None
            if exc.tag == "new":
                name = exc.args[0]
            elif exc.tag == "cls":
                name = exc.args[0]
            elif exc.tag == "call" and exc.args[0].tag == "b":
                name = "b:" + exc.args[0].args[0]
            elif exc.tag == "b":
                name = "b:" + exc.args[0]
            else:
                name = "?"
        self._raise(name, exc, st, s)
        return None

    def _raise(self, name, exc, st, node):
        caught = False
        for rec in reversed(self.tries):
            h = rec.match(self, name)
            if h is not None:
                # guard relative to the try statement: strip prefixes pushed since
                rel = mk_and(*(self.prefix[rec.depth:] + [st.pc]))
                for it in reversed(self.loop_iters[rec.nloops:]):
                    rel = self._exists(it, rel)
                h.append((rel, exc, dict(st.heap), rec.env if len(self.loop_iters) == rec.nloops else None))
                caught = True
                break
        self._event(kind="raise", name=name, val=exc, st=st, node=node, caught=caught)
        fr = self.stack[-1]
        for lr, it in fr.loops:
            lr.exits.append((st.pc, "raise"))

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st, s)
        return st if st.pc is not FALSE else None

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        op = OPS.get(type(s.op), "?")
        old = self.ev(_load(s.target), st)
        v = self.ev(s.value, st)
        if op == "+" and (old.tag in ("list", "cat", "extend", "map") or self._listish(old)):
            nv = self._extend(old, v)
        elif op == "|" and v.tag == "setof" and self._start(old).tag in ("set", "setof"):
            nv = self._extend(old, v)
        else:
            nv = mk_op(op, old, v)
        self._event(kind="aug", name=op, obj=old, val=v, st=st, node=s)
        self.assign(s.target, nv, st, s)
        return st

    def s_Delete(self, s, st):
        for tg in s.targets:
            if isinstance(tg, ast.Subscript):
                loc = tg.value
                b = self.ev(loc, st)
                i = self.ev(tg.slice, st)
                self._event(kind="del", obj=b, val=i, st=st, node=s)
                if self._dictlike(b):
                    self._must_have(b, i, st, s)
                    self._writeback(loc, t("without", b, i), st)
                    continue
                self._writeback(loc, t("mut", "del", b, (i,)), st)
            elif isinstance(tg, ast.Attribute):
                b = self.ev(tg.value, st)
                self._event(kind="del", obj=b, name=tg.attr, st=st, node=s)
        return st

    def s_Assert(self, s, st):
        c = self.cond(self.ev(s.test, st))
        st.pc = mk_and(st.pc, c)
        return st

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, t("i", v, t("slice", const(i), NONE, NONE)), st, node)
                else:
                    self.assign(e, mk_index(v, const(i)), st, node)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st)
            self.setattr(b, tg.attr, v, st, node)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)
            i = self.ev(tg.slice, st)
            self._event(kind="setitem", obj=b, attr=i, val=v, st=st, node=node)
            if b.tag == "dict" and i.tag == "c":
                items = tuple((k, w) for k, w in b.args[0] if k is not i) + ((i, v),)
                nb = t("dict", items)
            else:
                nb = t("upd", b, i, v)
            self._writeback(tg.value, nb, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, node)

    def _writeback(self, loc, nv, st):
        """re-bind the container expression loc to its mutated value"""
        if isinstance(loc, ast.Name):
            if loc.id in st.env:
                st.env[loc.id] = nv
        elif isinstance(loc, ast.Attribute):
            b = self.ev(loc.value, st, quiet=True)
            n = loc.attr
            c = self.typeof(b)
            if c:
                g = self.repo.lookup(c, n, "getters")
                if g is not None:
                    f = _simple_field(g)
                    if f:
                        n = f
            st.heap[(b.uid, n)] = (b, n, nv)
        elif isinstance(loc, ast.Subscript):
            b = self.ev(loc.value, st, quiet=True)
            i = self.ev(loc.slice, st, quiet=True)
            if b.tag == "dict" and i.tag == "c":
                nb = t("dict", tuple((k, w) for k, w in b.args[0] if k is not i) + ((i, nv),))
            else:
                nb = t("upd", b, i, nv)
            self._writeback(loc.value, nb, st)

    def setattr(self, b, n, v, st, node):
        if b.tag == "ite":
            # weak: store on both alternatives, gated
            for c, x in ((b.args[0], b.args[1]), (mk_not(b.args[0]), b.args[2])):
                s2 = st.copy(mk_and(st.pc, c))
                if s2.pc is FALSE:
                    continue
                self.setattr(x, n, v, s2, node)
                st.heap = self._merge_heap(c, s2.heap, st.heap)
            return
        c = self.typeof(b)
        if c:
            f = self.repo.lookup(c, n, "setters")
            if f is not None:
                self._event(kind="setprop", obj=b, attr=n, val=v, name=f.qual, st=st, node=node)
                if self._can_inline(f) and self.policy.props:
                    self._call_func(f, [b, v], [], st, node)
                else:
                    st.heap[(b.uid, n)] = (b, n, v)
                return
        self._event(kind="store", obj=b, attr=n, val=v, name=c, st=st, node=node)
        st.heap[(b.uid, n)] = (b, n, v)

    def s_If(self, s, st):
        c = self.cond(self.ev(s.test, st))
        if st.pc is FALSE:
            return None
        return self._branch(c, s.body, s.orelse, st)

    def _branch(self, c, body, orelse, st):
        a = st.copy(mk_and(st.pc, c))
        b = st.copy(mk_and(st.pc, mk_not(c)))
        ra = self.block(body, a) if a.pc is not FALSE else None
        rb = (self.block(orelse, b) if orelse else b) if b.pc is not FALSE else None
        return self.join(c, ra, rb)

    def join(self, c, a, b):
        if a is None or a.pc is FALSE:
            return b if b is not None and b.pc is not FALSE else None
        if b is None or b.pc is FALSE:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None or vb is None:
                env[k] = va or vb
            else:
                env[k] = mk_ite(c, va, vb)
        return State(env, self._merge_heap(c, a.heap, b.heap), mk_or(a.pc, b.pc))

    # ---- loops ----
    def _exists(self, it, c):
        return mk_exists(it, c)

    def leader(self, x, st):
        """of the sequences known here to be as long as x, the one that loops over any of them are counted by"""
        if x.tag in ("list", "tuple", "dict", "c"):
            return x
        same, todo = [x], [x]
        if st is None:
            return x
        eqs = []
        for c in _conjuncts(self.abs_pc(st.pc)):
            if c.tag == "eq" and all(is_len(y) for y in c.args):
                eqs.append(tuple(canon_iter(y.args[1][0]) for y in c.args))
        while todo and eqs:
            y = todo.pop()
            for a, b in eqs:
                for p, q in ((a, b), (b, a)):
                    if p is y and q not in same:
                        same.append(q)
                        todo.append(q)
        return min(same, key=lambda y: y.uid)

    def iter_elem(self, it, st=None):
        """(canonical iter term, element value, extra guard)"""
        it, el, g = self._iter_elem(it)
        xs = it.args[0] if it.tag == "zip" else (it,)
        ls = {self.leader(x, st) for x in xs}
        if len(ls) != 1 or it in ls:
            return it, el, g
        l = ls.pop()
        sub = {}
        for x in xs:
            if x is not l:
                sub[t("elem", x)] = mk_index(x, position(l))
                sub[position(x)] = position(l)
        sub[position(it)] = position(l)
        return l, subst(el, sub.get), subst(g, sub.get)

    def _iter_elem(self, it):
        it = canon_iter(it)
        if it.tag == "map":
            return it.args[1], it.args[0], it.args[2]
        if it.tag == "enumerate":
            base = it.args[0]
            b2, e, g = self._iter_elem(base)
            if g is not TRUE:
                b2 = canon_iter(base)
                e, g = t("elem", b2), TRUE
            i = position(b2)
            if it.args[1] is not None and not (is_const(it.args[1]) and cval(it.args[1]) == 0):
                i = mk_op("+", i, it.args[1])
            return b2, t("tuple", (i, e)), g
        if it.tag == "zip":
            cs = [canon_iter(x) for x in it.args[0]]
            b = {start_of(x) for x in cs}
            if len(b) == 1:
                # one sequence at heart: counted once
                b = b.pop()
                ks = {x.args[1].args[1] for x in cs if is_head(x)}
                if not ks:
                    return b, t("tuple", tuple(x.args[0] if x.tag == "map" else t("elem", b) for x in cs)), TRUE
                if len(ks) == 1:
                    k = t("call", t("b", "range"), (ks.pop(),), ())
                    return k, t("tuple", tuple(mk_index(x.args[0] if is_head(x) else x, t("elem", k)) for x in cs)), TRUE
            es = [t("elem", x) for x in cs]
            it = t("zip", tuple(canon_iter(x) for x in it.args[0]))
            return it, t("tuple", tuple(es)), TRUE
        if it.tag == "rangelen":
            x = canon_iter(it.args[0])
            while x.tag == "rangelen" or (x.tag == "map" and x.args[2] is TRUE):
                x = canon_iter(x.args[0] if x.tag == "rangelen" else x.args[1])
            return x, position(x), TRUE
        if it.tag == "call" and it.args[0].tag == "a" and it.args[0].args[1] in ("items", "values") and not it.args[1] and not it.args[2]:
            d = it.args[0].args[0]
            if d.tag == "a" and self.repo.dict_field(d.args[1]) is not None:
                # the items or values of a dictionary are its keys and what they lead to
                k = t("elem", d)
                v = t("i", d, k)
                return d, (t("tuple", (k, v)) if it.args[0].args[1] == "items" else v), TRUE
        if is_head(it):
            # as many steps as the head is long
            k = t("call", t("b", "range"), (it.args[1].args[1],), ())
            return k, mk_index(it.args[0], t("elem", k)), TRUE
        return it, t("elem", it), TRUE

    def s_For(self, s, st):
        itv = self.ev(s.iter, st)
        if st.pc is FALSE:
            return None
        return self._for(s, st, itv)

    def _for(self, s, st, itv):
        ci = canon_iter(itv)
        if ci.tag == "ite" and any(x.tag in ("list", "tuple", "dict") and len(x.args[0]) <= 2 for x in ci.args[1:]):
            # one of two sequences, one of them spelled out: run the loop over each
            c = ci.args[0]
            s1, s2 = st.copy(mk_and(st.pc, c)), st.copy(mk_and(st.pc, mk_not(c)))
            r1, r2 = (self._for(s, x, y) if x.pc is not FALSE else None for x, y in ((s1, ci.args[1]), (s2, ci.args[2])))
            if r1 is None or r2 is None:
                return r1 if r2 is None else r2
            return self.join(c, r1, r2)
        # unroll literal sequences
        if ci.tag == "dict" and is_dictish(ci):
            ci = t("list", tuple(dict_keys(ci)))
        if ci.tag in ("tuple", "list") and len(ci.args[0]) <= 6 and _has_loop_ctl(s.body) and not any(x.tag == "star" for x in ci.args[0]):
            return self._unroll(s, st, ci.args[0])
        if ci.tag in ("tuple", "list") and len(ci.args[0]) <= 12 and not _has_loop_ctl(s.body):
            for x in ci.args[0]:
                if st is None:
                    return None
                if x.tag == "star":
                    st = self._for(s if not s.orelse else ast.copy_location(ast.For(target=s.target, iter=s.iter, body=s.body, orelse=[]), s), st, x.args[0])
                    continue
                self.assign(s.target, x, st, s)
                st = self.block(s.body, st)
            if st is not None and s.orelse:
                st = self.block(s.orelse, st)
            return st
        ps = pieces(ci)
        if ps is not None and not _has_break(s.body) and not s.orelse:
            # one sequence after another
            for x in ps:
                if st is None:
                    return None
                st = self._for(s, st, x)
            return st
        it, el, g = self.iter_elem(itv, st)
        self._event(kind="loop", val=it, st=st, node=s)
        return self._loop(s, st, it, g, lambda b: self.assign(s.target, el, b, s))

    def _unroll(self, s, st, xs):
        """a loop over a written-out sequence, with its continue and break"""
        fr = self.stack[-1]
        left = []
        for x in xs:
            if st is None:
                break
            rec = LoopRec()
            rec.entry_pc = None
            fr.loops.append((rec, None))
            self.assign(s.target, x, st, s)
            st = self.block(s.body, st)
            fr.loops.pop()
            for pc, cs in rec.continues:
                cs = State(cs.env, cs.heap, pc)
                st = cs if st is None else self.join(pc, cs, st)
            left += [State(b.env, b.heap, pc) for pc, b in rec.breaks]
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        for b in left:
            st = b if st is None else self.join(b.pc, b, st)
        return st

    def s_While(self, s, st):
        # index-style loop:  i = 0; while i < len(xs): ... xs[i] ... i += 1
        idx = self._index_while(s, st)
        if idx is not None:
            name, seq = idx
            seq = self.leader(seq, st)
            self._event(kind="loop", val=seq, st=st, node=s)

            def bind(b):
                b.env[name] = position(seq)
            r = self._loop(s, st, seq, TRUE, bind, skip_vars={name})
            if r is not None:
                r.env[name] = t("call", t("b", "len"), (seq,), ())
            return r
        it = t("while", self.whiles.setdefault(id(s), len(self.whiles)))
        s, pre, after = self._leading_break(s)
        self._event(kind="loop", val=it, st=st, node=s)

        def bind(b):
            for a in pre:
                self.stmt(a, b)
            c = self.cond(self.ev(s.test, b))
            b.pc = mk_and(b.pc, c)
        r = self._loop(s, st, it, TRUE, bind, more=pre)
        if r is not None:
            for a in pre:
                self.stmt(a, r)
            c = self.cond(self.ev(s.test, r, quiet=True))
            if not _has_break(s.body) and c is not TRUE:
                r.pc = mk_and(r.pc, mk_not(c))
            elif c is TRUE and not _has_break(s.body):
                return None
            if after:
                r = self.block(after, r)
        return r

    def _leading_break(self, s):
        """while True: x = ..; if c: break; ...   as   while not c: ...  (with the leading assignments of local names)"""
        if not (isinstance(s.test, ast.Constant) and s.test.value is True) or s.orelse:
            return s, [], []
        if id(s) not in self.rewritten:
            r = (s, [], [])
            for k, b in enumerate(s.body):
                if isinstance(b, ast.Assign) and all(isinstance(x, ast.Name) for x in b.targets) and not any(
                        isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(b.value)):
                    continue
                if isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                    w = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=b.test), b),
                                                    body=(b.orelse + s.body[k + 1:]) or [ast.copy_location(ast.Pass(), b)], orelse=[]), s)
                    r = (w, s.body[:k], [])
                elif isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Return) and not _has_break(b.orelse + s.body[k + 1:]):
                    w = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=b.test), b),
                                                    body=(b.orelse + s.body[k + 1:]) or [ast.copy_location(ast.Pass(), b)], orelse=[]), s)
                    r = (w, s.body[:k], b.body)
                elif isinstance(b, ast.If) and len(b.orelse) == 1 and isinstance(b.orelse[0], ast.Break):
                    w = ast.copy_location(ast.While(test=b.test, body=b.body + s.body[k + 1:], orelse=[]), s)
                    r = (w, s.body[:k], [])
                break
            self.rewritten[id(s)] = r + (s,)
        return self.rewritten[id(s)][:3]

    def _index_while(self, s, st):
        te = s.test
        if not (isinstance(te, ast.Compare) and len(te.ops) == 1):
            return None
        l, r = te.left, te.comparators[0]
        if isinstance(te.ops[0], ast.Gt) or isinstance(te.ops[0], ast.GtE):
            l, r = r, l
        elif not isinstance(te.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name) or st.env.get(l.id) is not const(0):
            return None
        rv = self.ev(r, st, quiet=True)
        if not (rv.tag == "call" and rv.args[0].tag == "b" and rv.args[0].args[0] == "len"):
            return None
        incs = [n for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == l.id]
        asg = [n for n in ast.walk(s) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == l.id for x in n.targets)]
        if len(incs) + len(asg) != 1:
            return None
        n = (incs + asg)[0]
        if n is incs[0] if incs else False:
            if not (isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and n.value.value == 1):
                return None
        elif asg:
            v = n.value
            if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == l.id
                    and isinstance(v.right, ast.Constant) and v.right.value == 1):
                return None
        return l.id, canon_iter(rv.args[1][0])

    def _loop(self, s, st, it, g, bind, skip_vars=(), more=()):
        fr = self.stack[-1]
        assigned = _assigned(s.body) | _assigned(list(more)) | (_assigned([s.target]) if isinstance(s, ast.For) else set())
        assigned -= set(skip_vars)
        b = st.copy(TRUE)
        init = {}
        tgt = _assigned([s.target]) if isinstance(s, ast.For) else set()
        mutd = _mutated(s.body)
        for v in assigned | mutd:
            if v in st.env:
                if v not in assigned and (self.typeof(st.env[v]) or st.env[v].tag in ("cls", "mod", "ext", "fn")):
                    continue
                init[v] = st.env[v]
                b.env[v] = t("phi", v, it)
                self.phi_init[b.env[v].uid] = st.env[v]
        # heap locations mutated in the body: discover by one dry pass
        hinit = {}
        hlocs = self._dry_heap(s, b, it, g, bind, fr)
        for k in hlocs:
            bt, n = hlocs[k]
            hinit[k] = st.heap[k][2] if k in st.heap else attr(bt, n)
            b.heap[k] = (bt, n, t("phi", repr(bt) + "." + n, it))
        rec = LoopRec()
        rec.entry_pc = st.pc
        self.prefix.append(mk_and(st.pc, g))
        self.loop_iters.append(it)
        fr.loops.append((rec, it))
        bind(b)
        ev0, nret = len(self.events), len(fr.returns)
        ngot = {(id(q), i): len(l) for q in self.tries for i, l in q.got.items()}
        r = self.block(s.body, b)
        fr.loops.pop()
        self.loop_iters.pop()
        self.prefix.pop()
        # join continue states with fallthrough
        out = r
        for pc, cs in rec.continues:
            cs = State(cs.env, cs.heap, pc)
            out = cs if out is None else self.join(_apart(pc, out.pc), cs, out)
        post = st.copy()
        # whatever neither falls through nor continues nor breaks leaves the loop for good (return, raise)
        bad = mk_not(mk_or(*([r.pc] if r else []), *[p for p, _ in rec.continues], *[p for p, _ in rec.breaks]))
        brk = None
        for pc, bs in rec.breaks:
            bs = State(bs.env, bs.heap, pc)
            brk = bs if brk is None else self.join(_apart(pc, brk.pc), bs, brk)
        bpc = mk_or(*[p for p, _ in rec.breaks]) if rec.breaks else FALSE
        comb = out
        if brk is not None:
            comb = brk if out is None else self.join(bpc, brk, out)
        if bad is not FALSE and comb is not None:
            # a step that is left for good on some conditions: the choices made by what remains are told apart by a single fact if one does
            fact = mk_not(bad)
            for v in init:
                if v in comb.env and comb.env[v] is not init[v]:
                    comb.env[v] = _settled(comb.env[v], fact)
            for k in hinit:
                if k in comb.heap:
                    bt, n, val = comb.heap[k]
                    comb.heap[k] = (bt, n, _settled(val, fact))
        names = self._phi_names(comb, init, hinit, it)
        nm = (lambda x: subst(x, names.get)) if names else (lambda x: x)
        if names:
            for e in self.events[ev0:]:
                e.ren = (e.ren or ()) + (names,)
            # what left the loop for good carries the same names
            fr.returns[nret:] = [(nm(p), nm(v), {k: (nm(bt), n, nm(val)) for k, (bt, n, val) in h.items()}) for p, v, h in fr.returns[nret:]]
            for q in self.tries:
                for i, l in q.got.items():
                    k0 = ngot.get((id(q), i), 0)
                    l[k0:] = [(nm(p), nm(v) if v is not None else None, {k: (nm(bt), n, nm(val)) for k, (bt, n, val) in h.items()},
                               {k: nm(w) if isinstance(w, T) else w for k, w in en.items()} if en is not None else None) for p, v, h, en in l[k0:]]
        if bad is not FALSE:
            bad = nm(mk_and(bad, g))
            post.pc = mk_and(post.pc, mk_not(self._exists(it, bad)))
        if comb is not None:
            for v in set(comb.env):
                if v in init:
                    post.env[v] = nm(self._summ(init[v], t("phi", v, it), comb.env[v], it, g, bpc)) if v not in tgt else t("last", it, init[v])
                elif v not in st.env:
                    post.env[v] = t("last", it, nm(comb.env[v]))
            for k, (bt, n, val) in comb.heap.items():
                if k in hinit:
                    post.heap[k] = (bt, n, nm(self._summ(hinit[k], t("phi", repr(bt) + "." + n, it), val, it, g, bpc)))
                elif k not in st.heap or st.heap[k][2] is not val:
                    post.heap[k] = (bt, n, t("last", it, nm(val)))
        if s.orelse:
            if brk is not None:
                c = mk_not(self._exists(it, mk_and(g, bpc)))
                e = post.copy(mk_and(post.pc, c))
                e = self.block(s.orelse, e)
                o = post.copy(mk_and(post.pc, mk_not(c)))
                return self.join(c, e, o)
            return self.block(s.orelse, post)
        return post

    def _phi_names(self, comb, init, hinit, it):
        """loop-carried values named by their start and step, for what happens inside the loop"""
        sub = {}
        if comb is None:
            return sub
        for v in init:
            if v in comb.env:
                sub[t("phi", v, it)] = (init[v], comb.env[v])
        for k in hinit:
            if k in comb.heap:
                bt, n, val = comb.heap[k]
                sub[t("phi", repr(bt) + "." + n, it)] = (hinit[k], val)
        def named(p, a, val):
            if val is mk_op("+", p, const(1)) and a.tag == "c" and type(cval(a)) is int and not it.tag.startswith("while"):
                return position(it) if cval(a) == 0 else mk_op("+", position(it), a)          # counts the turns
            return None
        return {p: named(p, a, val) or t("acc", a, subst(val, lambda y: t("bound", 0) if y is p else t("bound", sub[y][0]) if y in sub else None), it) for p, (a, val) in sub.items()}

    def _dry_heap(self, s, b, it, g, bind, fr):
        ev, pf, li, lo = len(self.events), list(self.prefix), list(self.loop_iters), list(fr.loops)
        rets = list(fr.returns)
        trs = [(r, {k: list(v) for k, v in r.got.items()}) for r in self.tries]
        d0 = dict(self.dup)
        c = b.copy(TRUE)
        before = dict(c.heap)
        rec = LoopRec()
        rec.entry_pc = TRUE
        self.loop_iters.append(it)
        fr.loops.append((rec, it))
        bind(c)
        r = self.block(s.body, c)
        locs = {}
        outs = ([r] if r else []) + [x for _, x in rec.continues] + [x for _, x in rec.breaks]
        for o in outs:
            for k, (bt, n, v) in o.heap.items():
                if k not in before or before[k][2] is not v:
                    if k in before and not mentions(bt, lambda y: y.tag in ("elem", "idx") and y.args[0] is it) or not mentions(bt, lambda y: (y.tag in ("elem", "idx") and y.args[0] is it) or y.tag == "phi" or y.tag == "new"):
                        locs[k] = (bt, n)
        del self.events[ev:]
        self.loop_iters.cut(li)
        self.prefix[:], fr.loops[:] = pf, lo
        fr.returns[:] = rets
        for rr, got in trs:
            rr.got = got
        self.dup = d0
        return locs

    def _summ(self, init, phi, val, it, g, bpc):
        if val is phi:
            return init
        c, v = TRUE, val
        # peel gates that keep phi
        changed = True
        while changed:
            changed = False
            if v.tag == "ite":
                if v.args[2] is phi:
                    c, v, changed = mk_and(c, v.args[0]), v.args[1], True
                elif v.args[1] is phi:
                    c, v, changed = mk_and(c, mk_not(v.args[0])), v.args[2], True
        if bpc is not FALSE and not (v is TRUE or v is FALSE):
            ismap = False
        c = mk_and(g, c)
        hasphi = lambda x: mentions(x, lambda y: y is phi)
        if v.tag == "cat" and v.args[0] is phi and not hasphi(v.args[1]) and not hasphi(c):
            mp = t("map", v.args[1], it, c) if bpc is FALSE else t("mapbrk", v.args[1], it, c, bpc)
            return self._extend(init, mp)
        if v.tag == "extend" and v.args[0] is phi and not hasphi(v.args[1]) and not hasphi(c) and bpc is FALSE:
            return self._extend(init, t("flatmap", _each(v.args[1]), it, c))
        if v.tag == "op" and v.args[0] == "+" and bpc is FALSE and not hasphi(c) and v.args[1] is phi and v.args[2].tag == "list" and not hasphi(v.args[2]):
            q = v.args[2]
            return self._extend(init, t("map", q.args[0][0], it, c) if len(q.args[0]) == 1 else t("flatmap", q, it, c))
        if v.tag == "op" and v.args[0] == "+" and bpc is FALSE and not hasphi(c) and v.args[1] is phi and v.args[2].tag in ("map", "flatmap", "extend") \
                and not hasphi(v.args[2]):
            return self._extend(init, t("flatmap", _each(v.args[2]), it, c))
        if v.tag == "op" and v.args[0] == "+" and bpc is FALSE and not hasphi(c):
            for p, q in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
                if p is phi and not hasphi(q):
                    return mk_sum(init, t("map", q, it, c))
        if v.tag == "upd" and is_dictish(init) and not hasphi(c):
            # the entries of a dictionary, each carried by the loop on its own
            ks, w = [], v
            while w.tag == "upd" and is_const(w.args[1]) and isinstance(cval(w.args[1]), str) and w.args[1] not in [k for k, _ in ks]:
                ks.append((w.args[1], w.args[2]))
                w = w.args[0]
            own = lambda k, x: not mentions(subst(x, lambda y: const(0) if y is t("i", phi, k) else None), lambda y: y is phi)
            if w is phi and all(dict_has(init, k) is TRUE and own(k, x) for k, x in ks):
                out = init
                for k, x in reversed(ks):
                    p = t("i", phi, k)
                    q = self._summ(dict_get(init, k), p, mk_ite(c, x, p), it, g, bpc)
                    if out.tag == "dict":
                        out = t("dict", tuple((a, q if a is k else b) for a, b in out.args[0]))
                    else:
                        out = t("upd", out, k, q)
                return out
        if v.tag == "upd" and v.args[0] is phi and not hasphi(v.args[1]) and not hasphi(v.args[2]) and not hasphi(c) and bpc is FALSE:
            return dict_of(self._extend(entries(init), t("map", t("tuple", (v.args[1], v.args[2])), it, c)))
        if v.tag == "dictof" and not hasphi(c) and bpc is FALSE:
            x = after(v.args[0], entries(phi))
            if x is not None and not hasphi(x):
                return dict_of(self._extend(entries(init), t("flatmap", x, it, c)))
        if v is TRUE and not hasphi(c):
            if init is FALSE:
                return self._exists(it, c)
            if is_boolish(init):
                return mk_or(init, self._exists(it, c))
        if v is FALSE and not hasphi(c):
            if init is TRUE:
                return mk_not(self._exists(it, c))
            if is_boolish(init):
                return mk_and(init, mk_not(self._exists(it, c)))
        if v.tag in ("or", "and") and phi in v.args[0] and not hasphi(c) and c is TRUE:
            rest = [y for y in v.args[0] if y is not phi]
            if not any(hasphi(y) for y in rest):
                if v.tag == "or":
                    return mk_or(init, self._exists(it, mk_or(*rest)))
                return mk_and(init, mk_not(self._exists(it, mk_not(mk_and(*rest)))))
        if bpc is not FALSE and not hasphi(v) and not hasphi(c) and it.tag != "while" and Logic().equiv(c, mk_and(g, bpc)):
            # settled at the element the loop stops at
            return mk_ite(self._exists(it, c), first_one(v, it, c), init)
        return t("fold", init, it, subst(val, lambda y: t("phi", "#", it) if y is phi else None), bpc)

    def _extend(self, a, b):
        if a.tag == "list" and not a.args[0]:
            return b
        if b.tag == "setof" and self._start(a).tag in ("set", "setof"):
            b = b.args[0]
        if a.tag == "set" and not a.args[0] and b.tag == "map":
            return t("setof", b)
        if a.tag == "list" and b.tag in ("list", "tuple"):
            return t("list", a.args[0] + b.args[0])
        if b.tag == "list" and not b.args[0]:
            return a
        b = _each(b)
        if b.tag == "extend":
            return self._extend(self._extend(a, b.args[0]), b.args[1])
        return t("extend", a, b)

    def s_Break(self, s, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1][0].breaks.append((st.pc, st))
        return None

    def s_Continue(self, s, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1][0].continues.append((st.pc, st))
        return None

    # ---- try ----
    def s_Try(self, s, st):
        pc0 = st.pc
        st0 = st.copy()
        fr = self.stack[-1]
        rec = TryRec(s, fr, len(self.prefix), len(self.loop_iters))
        rec.resolve(self, st)
        self.tries.append(rec)
        body = st.copy()
        nret = len(fr.returns)
        ev0 = len(self.events)
        r = self.block(s.body, body)
        self.tries.pop()
        ev1 = len(self.events)
        self._again(ev0, pc0)
        done = set()
        for e in self.events[ev0:ev1]:
            # reaching this operation takes that none of those before it in the body raised
            e.after = (e.after or ()) + tuple((",".join(sorted(rec.names[i])), frozenset(done)) for i in range(len(s.handlers)))
            done |= set(_try_scope([e]).split())
        body_rets = (nret, len(fr.returns))
        evh = len(self.events)
        raw = []
        outs = []
        for i, h in enumerate(s.handlers):
            self.exc_n += 1
            x = t("exc", _try_scope(self.events[ev0:evh], rec.names[i]), ",".join(sorted(rec.names[i])))
            k = _only_key(self.events[ev0:ev1], rec.names[i])
            if k is not None:
                x = k
            got = rec.got.get(i, [])
            c = mk_or(x, *[g[0] for g in got])
            raw.append(x)
            hs = self._at_raise(rec, i, st0, self.events[ev0:ev1], got)
            hs.pc = mk_and(pc0, c)
            if h.name:
                val = t("v", "exc:" + ",".join(sorted(rec.names[i])))
                if len(got) == 1 and got[0][1] is not None:
                    val = got[0][1]
                hs.env[h.name] = val
            self._event(kind="handler", name=",".join(rec.names[i]), val=x, st=hs, node=h)
            self.handler_names = getattr(self, "handler_names", [])
            ho = self.block(h.body, hs)
            if ho is not None:
                outs.append((c, ho))
        for i in range(*body_rets):
            p, v, h = fr.returns[i]
            fr.returns[i] = (mk_and(p, *[mk_not(x) for x in raw]), v, h)
        res = None
        if r is not None and r.pc is not FALSE:
            npc = r.pc
            r = State(r.env, r.heap, mk_and(npc, *[mk_not(x) for x in raw]))
            if s.orelse:
                r = self.block(s.orelse, r)
            res = r
        for c, ho in outs:
            res = ho if res is None else self.join(c, ho, res)
        if s.finalbody:
            if res is None:
                tmp = st0.copy(pc0)
                self.block(s.finalbody, tmp)
                return None
            res = self.block(s.finalbody, res)
        return res

    def _again(self, ev0, pc0):
        """trimming a text that was trimmed before the try, or trimming it twice, raises nothing new"""
        seen = set()
        for k, e in enumerate(self.events):
            if e.kind != "call" or e.name not in ("strip", "lstrip", "rstrip", "lower", "upper") or e.recv is None or e.args or e.kw or e.loops:
                continue
            if k >= ev0 and (e.name, e.recv) in seen:
                e.safe = True
            elif k < ev0 and Logic().implies(pc0, e.pc):
                seen.add((e.name, e.recv))

    def _at_raise(self, rec, i, st0, events, got):
        """the state a handler starts from: the state at the operation that raised"""
        pts = []
        for e in events:
            if not self._may_raise(e, rec.names[i]) or len(e.loops) != len(self.loop_iters) or (getattr(e, "envs", None) or {}).get(id(rec)) is None:
                continue
            c = mk_and(t("excat", str(e.name) if e.kind == "call" else "[%s]" % (repr(cval(e.val)) if is_const(e.val) else "")), e.pc)
            if pts and pts[-1][1] == e.envs[id(rec)] and pts[-1][2] == e.heap:
                pts[-1][0] = mk_or(pts[-1][0], c)
            else:
                pts.append([c, e.envs[id(rec)], e.heap])
        out = None
        for c, env, heap in reversed(pts):
            a = State(dict(env), dict(heap), TRUE)
            out = a if out is None else self.join(c, a, out)
        out = out or State(dict(st0.env), dict(st0.heap), TRUE)
        for g in got:
            if g[3] is not None:
                out = self.join(g[0], State(dict(g[3]), dict(g[2]), TRUE), out)
        return State(dict(out.env), dict(out.heap), TRUE)

    def _may_raise(self, e, names):
        """whether the operation can end in one of these exceptions (an approximation from above for the repository's own code)"""
        if not _can_raise(e) or e.kind == "call" and (e.name in EXC_BASE or e.recv is None and any(q.split(".")[-1] == e.name and any(
                b in ("b:Exception", "b:BaseException") for b in self.repo.mro(q)) for q in self.repo.classes)):
            return False
        own = all(n in self.repo.classes for n in names)
        lookup = not own and all(n in ("b:KeyError", "b:IndexError", "b:LookupError") for n in names)
        if not own and not lookup:
            return True
        if e.kind == "index":
            return lookup
        return self.repo.may_raise(str(e.name).split(".")[-1], tuple(sorted(names)), lookup)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, quiet=False):
        if quiet:
            n = len(self.events)
            s2 = st.copy()
            v = self._ev(e, s2)
            del self.events[n:]
            return v
        return self._ev(e, st)

    def _ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self._ev(c, st)
            return t("unk", type(e).__name__, ast.dump(e)[:200])
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value) if e.value is not ... else t("unk", "ellipsis")

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        fr = self.stack[-1]
        cl = fr.closure
        while cl is not None:
            if n in cl.env:
                return cl.env[n]
            cl = cl.frame.closure
        r = self.repo.resolve(fr.module, n)
        if r is not None:
            return self._ent(r, n)
        if n in sys_builtins:
            return t("b", n)
        return t("undef", n)

    def _ent(self, r, n=None):
        if r is None:
            return t("undef", n or "?")
        if r[0] == "cls":
            return t("cls", r[1])
        if r[0] == "fn":
            return t("fn", r[1])
        if r[0] == "mod":
            return t("mod", r[1])
        if r[0] == "ext":
            return t("ext", r[1])
        if r[0] == "expr":
            return self._const_expr(r[1], r[2], r[3] if len(r) > 3 else None)
        return t("unk", n or "?")

    def _const_expr(self, m, node, cls=None):
        k = (id(node), cls.qual if cls is not None else None)
        if k in self._expr_cache:
            return self._expr_cache[k]
        if k in self._expr_busy:
            return t("unk", "cyclic")
        self._expr_busy.add(k)
        f = Func(m.name + ".<module>", node, m, cls)
        self.stack.append(Frame(f, m, cls))
        n = len(self.events)
        save, self.prefix = self.prefix, [TRUE]
        env = {}
        if cls is not None:
            for an, ae in cls.attrs.items():
                if isinstance(ae, ast.Constant):
                    env[an] = const(ae.value)
                elif ae is not node and isinstance(ae, ast.BinOp) and getattr(ae, "lineno", 0) < getattr(node, "lineno", 0):
                    env[an] = self._const_expr(m, ae, cls)
        v = self._ev(node, State(env, {}, TRUE))
        self.prefix = save
        del self.events[n:]
        self.stack.pop()
        self._expr_busy.discard(k)
        self._expr_cache[k] = v
        return v

    def e_Attribute(self, e, st):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            b = self._super(e.value, st)
            if b:
                selfv, after, c = b
                g = self.repo.lookup(c, e.attr, "getters", after=after)
                if g is not None and self._can_inline(g):
                    return self._call_func(g, [selfv], [], st, e)
                return t("a", t("super", selfv, after), e.attr)
        b = self._ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, n, st, node=None):
        k = (b.uid, n)
        if k in st.heap:
            return st.heap[k][2]
        if b.tag == "ite":
            x = self.getattr(b.args[1], n, st, node)
            y = self.getattr(b.args[2], n, st, node)
            return mk_ite(b.args[0], x, y)
        if b.tag == "mod":
            r = self.repo.resolve_attr(("mod", b.args[0]), n)
            if r is None:
                return t("undef", b.args[0] + "." + n) if b.args[0] in self.repo.modules else t("ext", b.args[0] + "." + n)
            return self._ent(r, n)
        if b.tag == "ext":
            return t("ext", b.args[0] + "." + n)
        if b.tag == "cls":
            r = self.repo.resolve_attr(("cls", b.args[0]), n)
            if r is not None:
                if r[0] == "expr" and self._is_enum(b.args[0]):
                    return t("enum", b.args[0], n)
                if r[0] == "fn":
                    return t("bm", r[1], b)     # bound to class
                return self._ent(r, n)
            return attr(b, n)
        if b.tag == "enum" and n in ("value", "name"):
            if n == "name":
                return const(b.args[1])
            c = self.repo.classes[b.args[0]]
            if "value" not in c.getters:
                return self._const_expr(c.module, c.attrs[b.args[1]], c)
        if n in ("sign", "digits", "exponent") and b.tag == "call" and b.args[0].tag == "a" and b.args[0].args[1] == "as_tuple":
            return mk_index(b, const(("sign", "digits", "exponent").index(n)))
        c = self.typeof(b)
        if c and c in self.repo.classes:
            g = self.repo.lookup(c, n, "getters")
            if b.tag not in ("new", "enum", "v") and self._overridden(c, n):
                return attr(b, n)
            if g is not None:
                x = _kept(g)
                if x is not None:
                    return self.getattr(b, x, st, node)
                if self.policy.props and self._can_inline(g):
                    return self._call_func(g, [b], [], st, node)
                return attr(b, n)
            f = self.repo.lookup(c, n)
            if f is not None:
                if f.kind == "staticmethod":
                    return t("fn", f.qual)
                return t("bm", f.qual, b)
            r = self.repo.resolve_attr(("cls", c), n)
            if r is not None and r[0] == "expr" and not self._attr_stored(c, n):
                if self._is_enum(c):
                    return t("enum", c, n)
                return self._ent(r, n)
        return attr(b, n)

    def _overridden(self, c, n):
        """some subclass of c defines n differently: the callee is not known"""
        base = self.repo.lookup(c, n, "getters") or self.repo.lookup(c, n)
        if base is None:
            return False
        return any((self.repo.lookup(q, n, "getters") or self.repo.lookup(q, n)) is not base for q in self.repo.subclasses(c))

    def _attr_stored(self, c, n):
        for q in self.repo.mro(c):
            cl = self.repo.classes.get(q)
            if cl is None:
                continue
            for x in ast.walk(cl.node):
                if isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store):
                    return True
        return False

    def _is_enum(self, q):
        return any(x in ("ext:enum.IntEnum", "ext:enum.Enum", "ext:enum.IntFlag", "ext:enum.Flag") for x in self.repo.mro(q))

    def _gives(self, x):
        """reading or calling this gives something, never None"""
        if x.tag == "a":
            c = self.typeof(x.args[0])
            return self.repo.gives(x.args[1], c) if c in self.repo.classes and self.repo.lookup(c, x.args[1], "getters") else not c and not x.args[1].startswith("_") and self._getter_name(x.args[1])
        f = x.args[0]
        if f.tag == "fn":
            return self.repo.fn_gives(f.args[0])
        if f.tag == "bm":
            q = self.repo.funcs.get(f.args[0])
            if q is None or q.cls is None:
                return False
            c = self.typeof(f.args[1]) or (f.args[1].args[0] if f.args[1].tag == "cls" else None)
            return self.repo.gives(q.node.name, c if c in self.repo.classes else q.cls.qual)
        if f.tag == "a" and f.args[0].tag not in ("ext", "mod"):
            return self.repo.gives(f.args[1]) and not self._getter_name(f.args[1], False)
        return False

    def _getter_name(self, n, must=True):
        if not any(n in c.getters for c in self.repo.classes.values()):
            return False
        return not must or self.repo.gives(n)

    def typeof(self, x):
        r = self.types.get(x.uid)
        if r is not None:
            return r
        if x.tag == "new":
            return x.args[0]
        if x.tag == "enum":
            return x.args[0]
        if x.tag == "ite":
            p, q = self.typeof(x.args[1]), self.typeof(x.args[2])
            if p == q:
                return p
            if x.args[1] is NONE:
                return q
            if x.args[2] is NONE:
                return p
            return None
        if x.tag == "a":
            c = self.typeof(x.args[0])
            if c:
                return self.field_type(c, x.args[1])
            return self.hints.get(("*", x.args[1]))
        if x.tag == "call":
            f = x.args[0]
            if f.tag in ("fn", "bm"):
                return self.ret_type(f.args[0], f.args[1] if f.tag == "bm" else None)
        if x.tag == "elem":
            h = self.hints.get(("elem", repr(x.args[0])))
            if h:
                return h
            y = x.args[0]
            if y.tag == "a":
                c = self.typeof(y.args[0])
                for k in ((c, y.args[1] + "[]"), ("*", y.args[1] + "[]")):
                    if k in self.hints:
                        return self.hints[k]
        if x.tag == "super":
            return None
        return None

    def field_type(self, c, n):
        for q in self.repo.mro(c):
            h = self.hints.get((q, n))
            if h:
                return h
        for q in [c] + [x for x in self.repo.mro(c) if x != c]:
            ft = field_types(self.repo).get((q, n))
            if ft:
                return ft
        g = self.repo.lookup(c, n, "getters")
        if g is not None:
            f = _simple_field(g)
            if f and f != n:
                return self.field_type(c, f)
            return self.ret_type(g.qual)
        return None

    def ret_type(self, qual, recv=None):
        if (qual, "ret") in self.hints:
            return self.hints[(qual, "ret")]
        return ret_types(self.repo, qual, recv.args[0] if recv is not None and recv.tag == "cls" else None)

    def e_Subscript(self, e, st):
        b = self._ev(e.value, st)
        i = self._ev(e.slice, st)
        n = 0
        while b.tag == "ite" and (i.tag == "idx" or is_const(i)) and n < 4:
            p, n = self.abs_pc(st.pc), n + 1
            if Logic().implies(p, b.args[0]):
                b = b.args[1]
            elif Logic().implies(p, mk_not(b.args[0])):
                b = b.args[2]
            else:
                break
        if i.tag not in ("c", "slice", "idx", "elem") and b.tag == "dict" and b.args[0] and is_dictish(b):
            ks = dict_keys(b)
            v = dict_get(b, ks[-1])
            for k in reversed(ks[:-1]):
                v = mk_ite(self._eq(i, k), dict_get(b, k), v)
            known = mk_or(*[self._eq(i, k) for k in ks])
            if not Logic().implies(self.abs_pc(st.pc), known):
                bad = st.copy(mk_and(st.pc, mk_not(known)))
                self._raise("b:KeyError", t("new", "b:KeyError", None, (i,), ()), bad, e)
                st.pc = mk_and(st.pc, known)
            return v
        if i.tag == "slice":
            i = self._slice_within(b, i, st)
        if is_position(i):
            c = canon_iter(b)
            if c is i.args[0]:
                return t("elem", c)
            if c.tag != "map" and self.leader(c, st) is self.leader(i.args[0], st):
                # as long as what is counted:  nothing is read past its end
                return mk_index(c, i)
            if c.tag == "ite" and any(x.tag in ("list", "tuple") and not x.args[0] for x in c.args[1:]):
                b = c = canon_iter(c.args[2] if c.args[1].tag in ("list", "tuple") and not c.args[1].args[0] else c.args[1])
            if c.tag == "map" and c.args[2] is TRUE and canon_iter(c.args[1]) is i.args[0]:
                return c.args[0]
            if c.tag == "rangelen":
                x = c
                while x.tag == "rangelen" or (x.tag == "map" and x.args[2] is TRUE):
                    x = canon_iter(x.args[0] if x.tag == "rangelen" else x.args[1])
                if x is i.args[0]:
                    return i
        r = mk_index(b, i)
        if r.tag == "i":
            self._event(kind="index", obj=b, val=i, st=st, node=e)
        return r

    def _slice_within(self, b, i, st):
        """one way to write a slice of something whose length is known here"""
        lo, up, step = i.args
        if step is NONE and lo.tag == "c" and cval(lo) == 0:
            lo = NONE
            i = t("slice", lo, up, step)
        if step is not NONE or not all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in (lo, up)):
            return i
        n = None
        ln = t("call", t("b", "len"), (b,), ())
        for pc in [st.pc] + self.prefix:
            for q in (pc.args[0] if pc.tag == "and" else (pc,)):
                if q.tag == "eq" and ln in q.args:
                    o = q.args[1] if q.args[0] is ln else q.args[0]
                    if is_const(o) and isinstance(cval(o), int):
                        n = cval(o)
        if n is None:
            return i
        a, z, _ = slice(None if lo is NONE else cval(lo), None if up is NONE else cval(up)).indices(n)
        return t("slice", const(a) if a else NONE, const(z) if z < n else NONE, NONE)

    def e_Slice(self, e, st):
        f = lambda x: self._ev(x, st) if x is not None else NONE
        return t("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        return self._seq("tuple", e, st)

    def e_List(self, e, st):
        return self._seq("list", e, st)

    def e_Set(self, e, st):
        return self._seq("set", e, st)

    def _seq(self, tag, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self._ev(x.value, st)
                if v.tag in ("tuple", "list"):
                    out.extend(v.args[0])
                else:
                    out.append(t("star", v))
            else:
                out.append(self._ev(x, st))
        return t(tag, tuple(out))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                w = self._ev(v, st)
                if w.tag == "dict":
                    items.extend(w.args[0])
                else:
                    items.append((t("star", w), w))
            else:
                items.append((self._ev(k, st), self._ev(v, st)))
        return t("dict", tuple(items))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self._ev(v.value, st)
                if v.conversion not in (-1, 115):
                    x = t("conv", x, v.conversion)
                if v.format_spec is not None:
                    fs = v.format_spec.values
                    x = t("spec", x, fs[0].value if len(fs) == 1 and isinstance(fs[0], ast.Constant) else ast.dump(v.format_spec))
                parts.append(x)
            else:
                parts.append(const(v.value))
        return mk_text(parts)

    def e_UnaryOp(self, e, st):
        v = self._ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return mk_not(self.cond(v))
        if isinstance(e.op, ast.USub):
            if v.tag == "c" and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return t("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return t("inv", v)

    def e_BinOp(self, e, st):
        a = self._ev(e.left, st)
        b = self._ev(e.right, st)
        op = OPS.get(type(e.op), "?")
        if op == "%" and a.tag == "c" and isinstance(cval(a), str):
            ps = format_parts(cval(a), b.args[0] if b.tag == "tuple" else (b,), {}, True)
            return mk_text(ps) if ps is not None else t("fmt", (t("percent", a, b),))
        if op == "+" and (a.tag in ("list", "map", "extend", "cat") and b.tag in ("list", "map", "extend", "cat") or self._listish(a) and self._listish(b)):
            return self._extend(a, b)
        if op == "|" and b.tag == "setof" and self._start(a).tag in ("set", "setof"):
            return self._extend(a, b)
        return mk_op(op, a, b)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        guard = TRUE
        pc0 = st.pc
        st_out = st
        acc = None
        cur = st
        # evaluate left to right, short-circuit guards on pc for later operands
        for i, x in enumerate(e.values):
            if guard is FALSE:
                break
            if i == 0:
                v = self._ev(x, st)
                pc0 = st.pc
            else:
                save_pc = st.pc
                st.pc = mk_and(st.pc, guard)
                if st.pc is FALSE:
                    st.pc = save_pc
                    break
                h0, e0 = dict(st.heap), dict(st.env)
                p_before = st.pc
                v = self._ev(x, st)
                if st.pc is not p_before:
                    # operand may exit: keep its exit guard under `guard`
                    st.pc = mk_or(mk_and(save_pc, mk_not(guard)), st.pc)
                else:
                    st.pc = save_pc
                if st.heap != h0:
                    st.heap = self._merge_heap(guard, st.heap, h0)
            vals.append(v)
            c = self.cond(v)
            guard = mk_and(guard, c if isand else mk_not(c))
        if all(is_boolish(v) for v in vals):
            return mk_and(*vals) if isand else mk_or(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = self._and_or(isand, v, r)
        return r

    def _and_or(self, isand, v, r):
        """v and r, v or r; an alternative of v whose truth is known is settled"""
        if v.tag == "ite" and any(truth(x) is not None for x in v.args[1:]):
            return mk_ite(v.args[0], self._and_or(isand, v.args[1], r), self._and_or(isand, v.args[2], r))
        c = self.cond(v)
        return mk_ite(c, r, v) if isand else mk_ite(c, v, r)

    def e_Compare(self, e, st):
        left = self._ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self._ev(r, st)
            m = self._own_comparison(op, left) if len(e.ops) == 1 else None
            if m is not None:
                call = ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=e.left, attr=m, ctx=ast.Load()), e), args=[r], keywords=[]), e)
                v = self._ev(call, st)
                out.append(mk_not(v) if isinstance(op, ast.NotEq) and m == "__eq__" else v)
            else:
                out.append(self.compare(op, left, right))
            left = right
        return mk_and(*out)

    def _own_comparison(self, op, left):
        """the operator method behind `self == x` written inside another operator method of the same class"""
        fr = self.stack[-1] if self.stack else None
        if fr is None or not isinstance(op, (ast.Eq, ast.NotEq)) or fr.cls is None or \
                not any(x.cls is not None and x.func.node.name in ("__eq__", "__ne__") for x in self.stack):
            return None
        c = self.types.get(left.uid)
        if c is None or not fr.func.node.args.args or left is not var("self"):
            return None
        for m in (("__eq__",) if isinstance(op, ast.Eq) else ("__ne__", "__eq__")):
            f = self.repo.method(c, m)
            if f is not None:
                return None if any(x.func is f for x in self.stack) else m
        return None

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Eq":
            return self._eq(a, b)
        if n == "NotEq":
            return mk_not(self._eq(a, b))
        if n == "Lt":
            return self._lt(a, b)
        if n == "Gt":
            return self._lt(b, a)
        if n == "LtE":
            return mk_not(self._lt(b, a))
        if n == "GtE":
            return mk_not(self._lt(a, b))
        if n in ("Is", "IsNot"):
            if b.tag == "c" and isinstance(cval(b), bool):
                r = mk_eq(a, b)
            else:
                r = mk_isnone(a) if b is NONE else (mk_isnone(b) if a is NONE else (TRUE if a is b else t("is", a, b)))
            return r if n == "Is" else mk_not(r)
        if n in ("In", "NotIn"):
            while b.tag == "call" and b.args[0] in (t("b", "set"), t("b", "frozenset"), t("b", "list"), t("b", "tuple")) and len(b.args[1]) == 1 and not b.args[2]:
                b = b.args[1][0]
            if b.tag in ("tuple", "list", "set") and a.tag != "elem":
                r = mk_or(*[self._eq(a, y) for y in b.args[0]]) if b.args[0] else FALSE
            elif a.tag == "c" and is_dictish(b):
                r = dict_has(b, a)
            elif b.tag == "dict" and b.args[0] and is_dictish(b):
                r = mk_or(*[self._eq(a, k) for k in dict_keys(b)])
            elif b.tag == "setof" or (b.tag == "map" and b.args[0].tag != "elem"):
                m = b.args[0] if b.tag == "setof" else b
                if m.tag == "map" and not mentions(a, lambda y: y.tag in ("elem", "idx") and y.args[0] is m.args[1]):
                    r = self._exists(m.args[1], mk_and(m.args[2], self._eq(m.args[0], a)))
                else:
                    r = t("in", a, b)
            elif a.tag == "c" and b.tag == "c" and isinstance(cval(a), str) and isinstance(cval(b), str):
                r = const(cval(a) in cval(b))
            else:
                r = t("in", a, b)
            return r if n == "In" else mk_not(r)
        return t("unk", n, a, b)

    def _eq(self, a, b):
        if a.tag == "tuple" and b.tag == "tuple" and len(a.args[0]) == len(b.args[0]):
            return mk_and(*[self._eq(x, y) for x, y in zip(a.args[0], b.args[0])])
        if b.tag == "ite" and a.tag == "c":
            a, b = b, a
        return mk_eq(a, b)

    def _lt(self, a, b):
        if a.tag == "c" and b.tag == "c":
            return mk_lt(a, b)
        return mk_lt(a, b)

    def e_IfExp(self, e, st):
        c = self.cond(self._ev(e.test, st))
        if c is TRUE:
            return self._ev(e.body, st)
        if c is FALSE:
            return self._ev(e.orelse, st)
        a, b = st.copy(mk_and(st.pc, c)), st.copy(mk_and(st.pc, mk_not(c)))
        va = self._ev(e.body, a) if a.pc is not FALSE else NONE
        vb = self._ev(e.orelse, b) if b.pc is not FALSE else NONE
        j = self.join(c, a, b)
        if j is not None:
            st.env, st.heap, st.pc = j.env, j.heap, j.pc
        return mk_ite(c, va, vb)

    def e_NamedExpr(self, e, st):
        v = self._ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Lambda(self, e, st):
        return self._mklam(e, st)

    def e_Starred(self, e, st):
        return t("star", self._ev(e.value, st))

    def e_Await(self, e, st):
        return self._ev(e.value, st)

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen")

    def e_SetComp(self, e, st):
        return t("setof", self._comp(e, st, "set"))

    def e_DictComp(self, e, st):
        if len(e.generators) == 1:
            g = e.generators[0]
            ci = canon_iter(self._ev(g.iter, st))
            if ci.tag in ("tuple", "list") and len(ci.args[0]) <= 16:
                cur = t("dict", ())
                for x in ci.args[0]:
                    b = st.copy()
                    self.assign(g.target, x, b, e)
                    c = TRUE
                    for f in g.ifs:
                        c = mk_and(c, self.cond(self._ev(f, b)))
                    k, v = self._ev(e.key, b), self._ev(e.value, b)
                    cur = mk_ite(c, t("upd", cur, k, v), cur)
                return cur
        return t("dictof", self._comp(e, st, "dict"))

    def _comp(self, e, st, kind):
        def rec(gi, s):
            if gi == len(e.generators):
                if kind == "dict":
                    return t("tuple", (self._ev(e.key, s), self._ev(e.value, s)))
                return self._ev(e.elt, s)
            g = e.generators[gi]
            return over(gi, s, g, self._ev(g.iter, s))

        def over(gi, s, g, itv):
            if itv.tag == "ite" and kind in ("list", "gen") and any(canon_iter(x).tag not in ("a", "v", "phi", "i") for x in itv.args[1:]):
                c, x, y = itv.args
                if mk_and(s.pc, c) is FALSE or mk_and(s.pc, mk_not(c)) is FALSE:
                    return over(gi, s, g, y if mk_and(s.pc, c) is FALSE else x)
                s1, s2 = s.copy(mk_and(s.pc, c)), s.copy(mk_and(s.pc, mk_not(c)))
                r = mk_ite(c, over(gi, s1, g, x), over(gi, s2, g, y))
                s.pc = mk_or(s1.pc, s2.pc)
                s.heap = self._merge_heap(c, s1.heap, s2.heap)
                return r
            ci = canon_iter(itv)
            if ci.tag in ("tuple", "list") and len(ci.args[0]) <= 12 and not g.ifs and (gi == len(e.generators) - 1 or kind in ("list", "gen")):
                out = []
                for x in ci.args[0]:
                    b = s.copy()
                    self.assign(g.target, x, b, e)
                    out.append(rec(gi + 1, b))
                if gi == len(e.generators) - 1:
                    return t("list", tuple(out))
                cur = t("list", ())
                for x in out:
                    cur = self._extend(cur, x)
                return cur
            if ci.tag in ("tuple", "list") and len(ci.args[0]) <= 6 and kind in ("list", "gen") and gi == len(e.generators) - 1 and not any(
                    x.tag == "star" for x in ci.args[0]):
                cur = t("list", ())
                for x in ci.args[0]:
                    b = s.copy()
                    self.assign(g.target, x, b, e)
                    c = TRUE
                    for f in g.ifs:
                        c = mk_and(c, self.cond(self._ev(f, b)))
                        b.pc = mk_and(b.pc, c)
                    if b.pc is FALSE:
                        continue
                    v = rec(gi + 1, b)
                    cur = mk_ite(c, t("list", cur.args[0] + (v,)) if cur.tag == "list" else t("cat", cur, v), cur)
                return cur
            ps = pieces(ci)
            if ps is not None and kind in ("list", "gen", "dict"):
                cur = t("list", ())
                for x in ps:
                    cur = self._extend(cur, over(gi, s, g, x))
                return cur
            it, el, gd = self.iter_elem(itv, s)
            b = s.copy(TRUE)
            self.prefix.append(mk_and(s.pc, gd))
            self.loop_iters.append(it)
            self.assign(g.target, el, b, e)
            c = TRUE
            for f in g.ifs:
                c = mk_and(c, self.cond(self._ev(f, b)))
                b.pc = mk_and(b.pc, c)
            fr = self.stack[-1]
            if b.pc is FALSE:
                v = NONE
            else:
                v = rec(gi + 1, b)
            self.loop_iters.pop()
            self.prefix.pop()
            # exits inside the element expression (inlined raises): universal fact afterwards
            alive = b.pc
            if alive is not mk_and(TRUE, c) and alive is not c:
                miss = mk_and(c, mk_not(alive))
                s.pc = mk_and(s.pc, mk_not(self._exists(it, miss)))
            if gi < len(e.generators) - 1:
                return t("flatmap", v, it, mk_and(gd, c))
            return t("map", v, it, mk_and(gd, c))
        s = st.copy()
        r = rec(0, s)
        st.pc = s.pc
        st.heap = s.heap
        return r

    # ---- calls ----
    def _super(self, call, st):
        fr = self.stack[-1]
        f = fr
        while f is not None and f.cls is None and f.closure is not None:
            f = f.closure.frame
        if f is None or f.cls is None:
            return None
        a = f.func.node.args
        nm = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else "self"
        sv = st.env.get(nm)
        if sv is None:
            return None
        c = sv.args[0] if sv.tag == "cls" else (self.typeof(sv) or f.cls.qual)
        return sv, f.cls.qual, c

    def e_Call(self, e, st):
        fx = e.func
        # super().m(...)
        if isinstance(fx, ast.Attribute) and isinstance(fx.value, ast.Call) and isinstance(fx.value.func, ast.Name) \
                and fx.value.func.id == "super":
            sp = self._super(fx.value, st)
            args, kw = self._args(e, st)
            if sp:
                sv, after, c = sp
                f = self.repo.lookup(c, fx.attr, after=after)
                if f is not None:
                    return self._invoke(f, [sv] + args, kw, st, e, recv=sv)
                return self._opaque(t("a", t("super", sv, after), fx.attr), fx.attr, sv, args, kw, st, e)
        if isinstance(fx, ast.Attribute):
            b = self._ev(fx.value, st)
            if st.pc is FALSE:
                return NONE
            args, kw = self._args(e, st)
            return self._gated_args(args, st, lambda a, s: self.call_method(b, fx.attr, a, kw, s, e, fx.value))
        f = self._ev(fx, st)
        args, kw = self._args(e, st)
        if st.pc is FALSE:
            return NONE
        return self._gated_args(args, st, lambda a, s: self.call(f, a, kw, s, e))

    def _gated_args(self, args, st, do):
        """f(*xs) where xs is one of two spelled out sequences: one call each"""
        for i, a in enumerate(args):
            if a.tag == "star" and a.args[0].tag == "ite" and all(x.tag in ("list", "tuple", "ite") for x in a.args[0].args[1:]):
                c = a.args[0].args[0]
                s1, s2 = st.copy(mk_and(st.pc, c)), st.copy(mk_and(st.pc, mk_not(c)))
                v1, v2 = (self._gated_args(args[:i] + self._spread(x) + args[i + 1:], s, do) if s.pc is not FALSE else NONE
                          for s, x in zip((s1, s2), a.args[0].args[1:]))
                j = self.join(c, s1, s2)
                if j is None:
                    st.pc = FALSE
                    return NONE
                st.env, st.heap, st.pc = j.env, j.heap, j.pc
                return mk_ite(c, v1, v2)
        return do(args, st)

    def _spread(self, v):
        """the arguments `*v` stands for"""
        if v.tag in ("tuple", "list"):
            return list(v.args[0])
        if v.tag == "call" and v.args[0] in (t("b", "list"), t("b", "tuple")) and len(v.args[1]) == 1 and not v.args[2]:
            return self._spread(v.args[1][0])
        if v.tag == "op" and v.args[0] == "+" and len(v.args) == 3:
            return self._spread(v.args[1]) + self._spread(v.args[2])
        if v.tag == "extend":
            return self._spread(v.args[0]) + self._spread(v.args[1])
        if v.tag == "cat":
            return self._spread(v.args[0]) + [v.args[1]]
        if _each(v) is not v:
            return self._spread(_each(v))
        return [t("star", v)]

    def _args(self, e, st):
        args, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self._ev(a.value, st)
                args.extend(self._spread(v))
            else:
                args.append(self._ev(a, st))
        for k in e.keywords:
            v = self._ev(k.value, st)
            if k.arg is None:
                if v.tag == "dict" and all(x.tag == "c" for x, _ in v.args[0]):
                    kw.extend((cval(x), y) for x, y in v.args[0])
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return args, kw

    def call_method(self, b, n, args, kw, st, node, recv_node=None):
        if b.tag == "ite" and self._ite_types(b):
            # distinct repository types on the two arms: gate the call
            c = b.args[0]
            s1, s2 = st.copy(mk_and(st.pc, c)), st.copy(mk_and(st.pc, mk_not(c)))
            v1 = self.call_method(b.args[1], n, args, kw, s1, node, recv_node) if s1.pc is not FALSE else NONE
            v2 = self.call_method(b.args[2], n, args, kw, s2, node, recv_node) if s2.pc is not FALSE else NONE
            j = self.join(c, s1, s2)
            if j is None:
                st.pc = FALSE
                return NONE
            st.env, st.heap, st.pc = j.env, j.heap, j.pc
            return mk_ite(c, v1, v2)
        if b.tag == "c" and isinstance(cval(b), str) and n in STR_FOLD and not kw and all(is_const(a) for a in args):
            try:
                v = getattr(cval(b), n)(*[cval(a) for a in args])
                return t("list", tuple(const(x) for x in v)) if isinstance(v, list) else const(v)
            except (TypeError, ValueError):
                pass
        if n == "split" and len(args) <= 1 and kw and set(dict(kw)) <= {"sep", "maxsplit"} and not ("sep" not in dict(kw) and not args):
            d = dict(kw)
            args, kw = list(args) or [d["sep"]], []
            if d.get("maxsplit") not in (None, const(-1)):
                args.append(d["maxsplit"])
        if n in ("encode", "decode") and len(args) + len(kw) == 1 and not self.typeof(b):      # the default encoding, spelled out
            e = args[0] if args else dict(kw).get("encoding")
            if e is not None and is_const(e) and isinstance(cval(e), str) and cval(e).lower().replace("_", "-") in ("utf-8", "utf8"):
                args, kw = [], []
        if n in ("hex", "decode") and b.tag == "call" and b.args[0] is t("b", "bytes") and len(b.args[1]) == 1 and not b.args[2]:
            b = t("call", t("b", "bytearray"), b.args[1], ())
        if n in ("startswith", "endswith") and len(args) == 1 and not kw and args[0].tag in ("tuple", "list") and not self.typeof(b):
            return mk_or(*[self.call_method(b, n, [y], kw, st, node, recv_node) for y in args[0].args[0]])
        if n in ("upper", "lower", "strip", "lstrip", "rstrip") and not args and not kw and b.tag == "call" and b.args[0].tag == "a" and not b.args[1]:
            m, x = b.args[0].args[1], b.args[0].args[0]
            if m in ("strip", "lstrip", "rstrip") and n in ("upper", "lower"):   # blanks have no case: change the case first
                y = self.call_method(x, n, [], [], st, node)
                return self.call_method(y, m, [], [], st, node)
            if (m == n and n != "upper") or (m == "strip" and n in ("lstrip", "rstrip")):
                return b
            if m in ("lstrip", "rstrip") and n in ("lstrip", "rstrip", "strip"):
                return self.call_method(x, "strip", [], [], st, node)
        f = self.getattr(b, n, st, node)
        if f.tag in ("fn", "cls", "lam", "ext", "b", "bm"):
            return self.call(f, args, kw, st, node, recv=b)
        h = self._new_helper(n) if not self.typeof(b) and b.tag not in ("cls", "mod", "ext", "c") else None
        if h is not None:
            return self._invoke(h, [b] + list(args), kw, st, node)
        if n in CONTAINER_METHODS and recv_node is not None and not self.typeof(b) and not (n == "pop" and is_dictish(b)):
            e = self._event(kind="call", name=n, recv=b, args=tuple(args), kw=tuple(kw), st=st, node=node)
            e.safe = n in ("append", "extend", "insert", "reverse", "clear")
            return self._container(b, n, args, kw, st, recv_node)
        if n == "update" and recv_node is not None and len(args) == 1 and not kw and b.tag == "call" and b.args[0].tag == "ext" and b.args[0].args[0].startswith("hashlib.") and len(b.args[1]) <= 1:
            self._writeback(recv_node, t("call", b.args[0], (mk_op("+", b.args[1][0], args[0]) if b.args[1] else args[0],), b.args[2]), st)
            return NONE
        if n == "hexdigest" and not args and not kw:
            return self.call_method(self.call_method(b, "digest", [], [], st, node), "hex", [], [], st, node)
        if n in ("add", "update") and recv_node is not None and not self.typeof(b) and \
                self._start(b).tag in ("set", "setof", "mut", "dict", "fold", "dictof"):
            self._event(kind="call", name=n, recv=b, args=tuple(args), kw=tuple(kw), st=st, node=node).safe = True
            if self._start(b).tag in ("set", "setof") and len(args) == 1:
                nv = t("cat", b, args[0]) if n == "add" else self._extend(b, args[0])
            elif b.tag == "dict" and len(args) == 1 and args[0].tag == "dict":
                nv = t("dict", b.args[0] + args[0].args[0])
            elif n == "update" and self._start(b).tag in ("dict", "dictof") and len(args) == 1 and not kw and args[0].tag in ("dict", "dictof"):
                nv = dict_of(self._extend(entries(b), entries(args[0])))
            else:
                nv = t("mut", n, b, tuple(args))
            self._writeback(recv_node, nv, st)
            return NONE
        if n == "get" and args and is_const(args[0]) and is_dictish(b):
            d = args[1] if len(args) > 1 else NONE
            v = dict_get(b, args[0])
            return d if v is None else mk_ite(dict_has(b, args[0]), v, d)
        if n == "get" and not kw and 1 <= len(args) <= 2 and args[0].tag == "c" and isinstance(args[0].args[1], str) and self.typeof(b) is None \
                and b.tag not in ("c", "ext", "mod", "cls", "par"):
            return mk_ite(t("in", args[0], b), mk_index(b, args[0]), args[1] if len(args) == 2 else NONE)
        if n == "get" and not kw and 1 <= len(args) <= 2 and (b.tag == "dictof" or b.tag == "a" and self.repo.dict_field(b.args[1]) is not None):
            x = mk_index(b, args[0])
            if b.tag == "a" and self.repo.dict_field(b.args[1]):
                mark_full(b)
            return mk_ite(t("in", args[0], b), x, args[1] if len(args) == 2 else NONE)
        if n == "get" and args and not kw and not is_const(args[0]) and b.tag == "dict" and b.args[0] and is_dictish(b):
            v = args[1] if len(args) > 1 else NONE
            for k in reversed(dict_keys(b)):
                v = mk_ite(self._eq(args[0], k), dict_get(b, k), v)
            return v
        if n == "setdefault" and recv_node is not None and len(args) == 2 and is_const(args[0]) and is_dictish(b):
            h, v = dict_has(b, args[0]), dict_get(b, args[0])
            nv = args[1] if v is None else mk_ite(h, v, args[1])
            self._writeback(recv_node, mk_ite(h, b, t("upd", b, args[0], args[1])), st)
            return nv
        if n in ("keys", "items", "values") and not args and b.tag == "ite" and any(x.tag == "dict" and not x.args[0] for x in b.args[1:]):
            return mk_ite(b.args[0], *(self.call_method(x, n, [], kw, st, node) for x in b.args[1:]))
        if n in ("keys", "items", "values") and not args and b.tag == "dict" and is_dictish(b):
            ks = dict_keys(b)
            return t("list", tuple(k if n == "keys" else dict_get(b, k) if n == "values" else t("tuple", (k, dict_get(b, k))) for k in ks))
        if n == "pop" and recv_node is not None and args and is_const(args[0]) and is_dictish(b):
            d = args[1] if len(args) > 1 else NONE
            v = dict_get(b, args[0])
            self._writeback(recv_node, t("mut", "del", b, (args[0],)), st)
            return d if v is None else mk_ite(dict_has(b, args[0]), v, d)
        if n == "format" and b.tag == "c":
            if not any(x.tag == "star" for x in args) and isinstance(cval(b), str):
                ps = format_parts(cval(b), args, dict(kw))
                if ps is not None:
                    return mk_text(ps)
            return t("fmt", (t("format", b, tuple(args), tuple(kw)),))
        if n == "join" and b.tag == "c" and len(args) == 1:
            xs = args[0].args[0] if args[0].tag in ("list", "tuple") else ()
            if xs and isinstance(cval(b), str) and len(xs) <= 12 and all(is_strish(x) for x in xs):
                return mk_text([y for i, x in enumerate(xs) for y in ((b, x) if i else (x,))])
            return mk_join(b, args[0])
        if n == "copy" and not args and b.tag in ("list", "dict", "map", "cat", "extend"):
            return b
        if n == "__class__":
            pass
        return self._opaque(f, n, b, args, kw, st, node)

    def _new_helper(self, n):
        """the only method of this name, where it is none of the known ones: whatever it is called on is of its class"""
        known = self.policy.known
        if known is None or hasattr(str, n) or hasattr(dict, n) or hasattr(list, n) or hasattr(set, n):
            return None
        if n not in self.policy._helpers:
            fs = [f for f in self.repo.funcs.values() if f.node.name == n]
            self.policy._helpers[n] = fs[0] if len(fs) == 1 and fs[0].cls is not None and fs[0].kind == "method" and fs[0].qual not in known else None
        return self.policy._helpers[n]

    def _start(self, b):
        """what a container carried by loops or grown step by step began as"""
        for _ in range(20):
            if b.uid in self.phi_init:
                b = self.phi_init[b.uid]
            elif b.tag in ("cat", "extend"):
                b = b.args[0]
            else:
                break
        return b

    def _ite_types(self, b):
        def kind(x):
            if x.tag == "cls":
                return x
            if x.tag == "ite":
                k = kind(x.args[1]), kind(x.args[2])
                return None if None in k else k[0] if k[0] == k[1] else k
            return self.typeof(x)
        p, q = kind(b.args[1]), kind(b.args[2])
        return p is not None and q is not None and p != q

    def _dictlike(self, b):
        """a dictionary kept in a field, as changed so far"""
        while b.tag in ("upd", "without"):
            b = b.args[0]
        if b.tag == "ite":
            return self._dictlike(b.args[1]) and self._dictlike(b.args[2])
        return b.tag == "a" and self.repo.dict_field(b.args[1]) is not None

    def _must_have(self, b, k, st, node):
        known = t("in", k, b)
        if not Logic().implies(self.abs_pc(st.pc), known):
            bad = st.copy(mk_and(st.pc, mk_not(known)))
            self._raise("b:KeyError", t("new", "b:KeyError", None, (k,), ()), bad, node)
            st.pc = mk_and(st.pc, known)

    def _container(self, b, n, args, kw, st, loc):
        if n == "append" and len(args) == 1:
            nv = t("list", b.args[0] + (args[0],)) if b.tag == "list" else t("cat", b, args[0])
            if b.tag == "call" and b.args[0] is t("b", "bytearray") and not b.args[2] and len(b.args[1]) <= 1 and all(x.tag == "list" for x in b.args[1]):
                nv = t("call", b.args[0], (t("list", (b.args[1][0].args[0] if b.args[1] else ()) + (args[0],)),), ())
            r = NONE
        elif n == "extend" and len(args) == 1:
            nv = self._extend(b, args[0])
            r = NONE
        elif n == "pop" and len(args) in (1, 2) and self._dictlike(b):
            if len(args) == 1:
                self._must_have(b, args[0], st, loc)
                r = mk_index(b, args[0])
            else:
                r = mk_ite(t("in", args[0], b), mk_index(b, args[0]), args[1])
            nv = t("without", b, args[0])
        elif n == "pop":
            i = args[0] if args else const(-1)
            nv = t("popped", b, i)
            r = mk_index(b, i)
        elif n == "sort":
            d = dict(kw)
            nv = self._sorted(b, kw, st)
            r = NONE
        else:
            nv = t("mut", n, b, tuple(args))
            r = NONE
        self._writeback(loc, nv, st)
        return r

    def _sorted(self, b, kw, st):
        d = dict(kw)
        k = d.get("key", NONE)
        while b.tag == "call" and b.args[0] in (t("b", "list"), t("b", "tuple")) and len(b.args[1]) == 1 and not b.args[2]:
            b = b.args[1][0]
        if k.tag in ("b", "fn", "bm"):
            e = st.copy()
            n = len(self.events)
            kt = self.call(k, [t("elem", canon_iter(b))], [], e, None)
            del self.events[n:]
        elif k.tag == "lam":
            kt = self._apply_lam(k, [t("elem", canon_iter(b))], [], st, None, quiet=True)
        else:
            kt = k
        return t("sorted", b, kt, d.get("reverse", FALSE))

    def _opaque(self, f, name, recv, args, kw, st, node):
        f = t("a", recv, name) if recv is not None and f.tag not in ("a", "ext", "fn", "bm", "cls") else f
        if f.tag == "a" and kw:
            ps = self._params_of(f.args[1], {k for k, _ in kw})
            if ps and not any(x.tag == "star" for x in args) and not any(k == "**" for k, _ in kw):
                args, kw = self._norm(ps, args, kw)
        res = t("call", f, tuple(args), tuple(kw))
        self._event(kind="call", name=name, recv=recv, args=tuple(args), kw=tuple(kw), st=st, node=node, res=res)
        return res

    def call(self, f, args, kw, st, node, recv=None):
        if f.tag == "ite":
            c = f.args[0]
            s1, s2 = st.copy(mk_and(st.pc, c)), st.copy(mk_and(st.pc, mk_not(c)))
            v1 = self.call(f.args[1], args, kw, s1, node) if s1.pc is not FALSE else NONE
            v2 = self.call(f.args[2], args, kw, s2, node) if s2.pc is not FALSE else NONE
            j = self.join(c, s1, s2)
            if j is None:
                st.pc = FALSE
                return NONE
            st.env, st.heap, st.pc = j.env, j.heap, j.pc
            return mk_ite(c, v1, v2)
        if f.tag == "cls":
            return self._new(f.args[0], args, kw, st, node)
        if f.tag == "fn":
            fn = self.repo.funcs[f.args[0]]
            return self._invoke(fn, args, kw, st, node, recv=recv)
        if f.tag == "bm":
            fn = self.repo.funcs[f.args[0]]
            b = f.args[1]
            if fn.kind == "staticmethod":
                return self._invoke(fn, args, kw, st, node, recv=b)
            if fn.kind == "classmethod":
                c = b if b.tag == "cls" else t("cls", self.typeof(b))
                return self._invoke(fn, [c] + args, kw, st, node, recv=b)
            if b.tag == "cls":   # Class.method(obj, ...)
                return self._invoke(fn, args, kw, st, node, recv=b)
            return self._invoke(fn, [b] + args, kw, st, node, recv=b)
        if f.tag == "lam":
            return self._apply_lam(f, args, kw, st, node)
        if f.tag == "b":
            return self._builtin(f.args[0], args, kw, st, node)
        if f.tag == "ext":
            return self._ext(f.args[0], args, kw, st, node)
        if f.tag == "a":
            return self._opaque(f, f.args[1], f.args[0], args, kw, st, node)
        return self._opaque(f, repr(f), None, args, kw, st, node)

    def _apply_lam(self, f, args, kw, st, node, quiet=False):
        L = self.lams[f.args[0]]
        if sum(1 for x in self.stack if x.func.node is L.node) >= 2:
            return t("call", f, tuple(args), tuple(kw))
        fn = Func(L.frame.func.qual + ".<lambda>" if isinstance(L.node, ast.Lambda) else L.frame.func.qual + "." + L.node.name,
                  L.node, L.frame.module, None)
        n = len(self.events)
        env = self._bind(fn, list(args), list(kw), st)
        if env is None:
            return t("call", f, tuple(args), tuple(kw))
        if quiet:
            s2 = st.copy()
            v = self._enter(fn, env, s2, closure=L)
            del self.events[n:]
            return v
        return self._enter(fn, env, st, closure=L)

    def _can_inline(self, fn):
        if not self.policy.want(fn):
            return False
        if len(self.stack) > self.policy.max_depth:
            return False
        if any(f.func.qual == fn.qual for f in self.stack):
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            return False
        return True

    def _invoke(self, fn, args, kw, st, node, recv=None):
        if self._can_inline(fn):
            return self._call_func(fn, args, kw, st, node)
        a = args
        if fn.kind in ("method", "classmethod") and args and (fn.kind == "method" or args[0].tag == "cls"):
            rv, a = args[0], args[1:]
            f = t("bm", fn.qual, rv)
        else:
            rv = None
            f = t("fn", fn.qual)
        a, kw = self.norm_args(fn, a, kw)
        res = t("call", f, tuple(a), tuple(kw))
        self._event(kind="call", name=fn.node.name, recv=rv, args=tuple(a), kw=tuple(kw), st=st, node=node, res=res, obj=fn.qual)
        return res

    def _params_of(self, name, keys):
        """parameter names of a method called with these keywords on an unknown receiver, when every method of that name taking them agrees"""
        if name not in self._params:
            ps = set()
            for f in self.repo.funcs.values():
                if f.node.__class__ is ast.FunctionDef and f.node.name == name and f.cls is not None and f.kind != "staticmethod":
                    a = f.node.args
                    ps.add(None if a.vararg or a.kwarg or a.kwonlyargs else tuple(x.arg for x in a.posonlyargs + a.args)[1:])
            self._params[name] = ps
        ps = [p for p in self._params[name] if p is None or keys <= set(p)]
        if len(ps) <= 1 or None in ps:
            return ps[0] if len(ps) == 1 else None
        n = 0
        while all(len(p) > n and p[n] == ps[0][n] for p in ps):
            n += 1
        return ps[0][:n] if keys <= set(ps[0][:n]) else None

    def norm_args(self, fn, args, kw):
        """canonical positional order for opaque calls to known functions"""
        ps = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if fn.kind in ("method", "classmethod", "getter", "setter"):
            ps = ps[1:]
        if any(x.tag == "star" for x in args) or any(k == "**" for k, _ in kw):
            return args, kw
        return self._norm(ps, args, kw)

    def _norm(self, ps, args, kw):
        out, rest = list(args), dict(kw)
        for p in ps[len(args):]:
            if p in rest:
                out.append(rest.pop(p))
            else:
                break
        return out, [(k, rest[k]) for k in sorted(rest)]

    def _call_func(self, fn, args, kw, st, node):
        self.inlined.add(fn.qual)
        env = self._bind(fn, args, kw, st)
        if env is None:
            return self._opaque(t("fn", fn.qual), fn.node.name, None, args, kw, st, node)
        if fn.kind not in ("getter", "setter"):
            rv = args[0] if fn.kind in ("method", "classmethod") and args else None
            a = args[1:] if rv is not None else args
            a, k = self.norm_args(fn, a, kw)
            self._event(kind="call", name=fn.node.name, recv=rv, args=tuple(a), kw=tuple(k), st=st, node=node, obj=fn.qual, inlined=True)
        return self._enter(fn, env, st)

    def _enter(self, fn, env, st, closure=None):
        self.prefix.append(st.pc)
        v, out = self._run_body(fn, env, dict(st.heap), closure)
        self.prefix.pop()
        if out is None:
            st.pc = FALSE
            return NONE
        st.heap = out.heap
        st.pc = mk_and(st.pc, out.pc)
        if closure is not None:
            pass
        return v

    def _bind(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if any(x.tag == "star" for x in args):
            if not (a.vararg and len(args) == 1 + (1 if fn.kind in ("method", "classmethod") else 0)):
                i = [k for k, x in enumerate(args) if x.tag == "star"][0]
                # spread an unknown sequence over the remaining positionals
                sv = args[i].args[0]
                rest = len(names) - i
                args = args[:i] + [mk_index(sv, const(j)) for j in range(max(rest, 0))]
        kw = list(kw)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
        if a.vararg:
            extra = args[len(names):]
            if len(extra) == 1 and extra[0].tag == "star":
                env[a.vararg.arg] = extra[0].args[0]
            else:
                env[a.vararg.arg] = t("tuple", tuple(extra))
        kws = {}
        for k, v in kw:
            if k == "**":
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                kws[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = t("dict", tuple((const(k), v) for k, v in kws.items()))
        # defaults
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n in defs:
                    env[n] = self._const_expr(fn.module, defs[n], fn.cls)
                else:
                    env[n] = t("unk", "missing:" + n)
        return env

    def _new(self, q, args, kw, st, node):
        if self._is_enum(q):
            if len(args) == 1:
                if args[0].tag == "enum":
                    return args[0]
                return t("call", t("cls", q), tuple(args), ())
        init = self.repo.lookup(q, "__init__")
        if init is not None:
            args, kw = self.norm_args(init, args, kw)
            args = self._given(init, args, kw)
        if q.endswith(".PrimitiveTypes.Currency") and len(args) == 1 and not kw and args[0] is const(0):
            args = []   # no amount given: none
        late = None
        if init is not None and not (q in self.policy.init and self._can_init(init)):
            late, args, kw = self._late(q, init, args, kw)
        key = (q, tuple(a.uid for a in args), tuple((k, v.uid) for k, v in kw))
        inl = init is not None and (q in self.policy.init) and self._can_init(init)
        n = 0
        if not self._is_value(q):
            n = self.dup.get(key, 0)
            self.dup[key] = n + 1
        obj = t("new", q, n, tuple(args), tuple(kw))
        self._event(kind="call", name=q.split(".")[-1], recv=None, args=tuple(args), kw=tuple(kw), st=st, node=node, res=obj, obj=q)
        if inl:
            self.built.add(obj.uid)
            self.inlined.add(init.qual)
            env = self._bind(init, [obj] + list(args), kw, st)
            self._enter(init, env, st)
        if late is not None:
            self.setattr(obj, late[0], late[1], st, node)
        return obj

    def _given_to(self, q, args):
        init = self.repo.lookup(q, "__init__") if q in self.repo.classes else None
        if init is None or any(x.tag == "star" for x in args):
            return args
        args = self._given(init, args, ())
        return [] if q.endswith(".PrimitiveTypes.Currency") and len(args) == 1 and args[0] is const(0) else args

    def _padded(self, q, args, n):
        init = self.repo.lookup(q, "__init__") if q in self.repo.classes else None
        if init is None or any(x.tag == "star" for x in args):
            return args
        a = init.node.args
        ps = (a.posonlyargs + a.args)[1:]
        ds = dict(zip([p.arg for p in ps][len(ps) - len(a.defaults):], a.defaults))
        args = list(args)
        while len(args) < min(n, len(ps)) and isinstance(ds.get(ps[len(args)].arg), ast.Constant):
            args.append(const(ds[ps[len(args)].arg].value))
        return tuple(args)

    def _given(self, init, args, kw):
        """arguments that spell out a constant default say nothing"""
        a = init.node.args
        ps = (a.posonlyargs + a.args)[1:]
        ds = dict(zip([p.arg for p in ps][len(ps) - len(a.defaults):], a.defaults))
        args = list(args)
        while args and not kw and len(args) <= len(ps) and args[-1].tag == "c" and isinstance(ds.get(ps[len(args) - 1].arg), ast.Constant) \
                and args[-1] is const(ds[ps[len(args) - 1].arg].value):
            args.pop()
        return args

    def _late(self, q, init, args, kw):
        """the last argument of an input or output, which is not part of its content (its id, the output it spends), given to the
        constructor or assigned afterwards: one form for both"""
        a = init.node.args.args
        if not q.startswith("tfchain.types.IO.") or len(a) < 2 or self.repo.lookup(q, a[-1].arg, "setters") is None:
            return None, args, kw
        n = a[-1].arg
        if len(args) == len(a) - 1 and args[-1].tag != "star":
            return (n, args[-1]), args[:-1], kw
        if n in dict(kw):
            return (n, dict(kw)[n]), args, [(k, v) for k, v in kw if k != n]
        return None, args, kw

    def _can_init(self, init):
        return len(self.stack) <= self.policy.max_depth and not any(f.func.qual == init.qual for f in self.stack) or \
            sum(1 for f in self.stack if f.func.qual == init.qual) < 2

    def _is_value(self, q):
        if self.value_classes is None:
            self.value_classes = {c for c in self.repo.classes if any(
                b.endswith("BaseDataTypeClass") or b == "b:Exception" for b in self.repo.mro(c))}
        return q in self.value_classes or q.split(".")[-1].endswith("Error")

    def _ext(self, q, args, kw, st, node):
        nm = q.split(".")[-1]
        if n_sample(q, args, kw):
            return self._opaque(t("ext", "random.shuffle"), "shuffle", None, args[:1], [], st, node) and args[0]
        if q == "functools.reduce" and len(args) >= 2:
            return self._reduce(args, st, node)
        if q == "datetime.datetime" and not kw:
            while len(args) > 3 and is_const(args[-1]) and cval(args[-1]) == 0 and not isinstance(cval(args[-1]), bool):
                args = args[:-1]                         # midnight, spelled out
        return self._opaque(t("ext", q), nm, None, args, kw, st, node)

    def _reduce(self, args, st, node):
        fn, seq = args[0], args[1]
        ci = canon_iter(seq)
        phi_it = None
        if fn.tag == "lam":
            if ci.tag in ("tuple", "list"):
                xs = list(ci.args[0])
                acc = args[2] if len(args) > 2 else (xs.pop(0) if xs else NONE)
                for x in xs:
                    acc = self._apply_lam(fn, [acc, x], [], st, node)
                return acc
            it, el, g = self.iter_elem(ci, st)
            phi = t("phi", "#acc", it)
            self.loop_iters.append(it)
            v = self._apply_lam(fn, [phi, el], [], st, node)
            self.loop_iters.pop()
            v = _strip_boolgate(v, phi)
            init = args[2] if len(args) > 2 else None
            if init is None:
                # no initialiser: neutral element for and/or/+
                if v.tag == "or" or v.tag == "ite":
                    init = FALSE
                elif v.tag == "and":
                    init = TRUE
                elif v.tag == "op" and v.args[0] == "+":
                    init = const(0)
                else:
                    return t("fold", t("unk", "first"), it, v, FALSE)
            return self._summ(init, phi, v, it, g, FALSE)
        return self._opaque(t("ext", "functools.reduce"), "reduce", None, args, [], st, node)

    def _next(self, x, default):
        """next(generator, default)"""
        if x.tag == "ite":
            a, b = self._next(x.args[1], default), self._next(x.args[2], default)
            return None if a is None or b is None else mk_ite(x.args[0], a, b)
        if x.tag == "map" and x.args[1].tag != "while":
            v, it, g = x.args
            return mk_ite(self._exists(it, g), first_one(v, it, g), default)
        if x.tag == "list" and x.args[0] and x.args[0][0].tag != "star":
            return x.args[0][0]
        return None

    def _builtin(self, n, args, kw, st, node):
        if n == "next" and len(args) == 2 and not kw:
            r = self._next(args[0], args[1])
            if r is not None:
                return r
        if n == "isinstance" and len(args) == 2:
            return self._isinstance(args[0], args[1])
        if n == "bytes" and len(args) == 1 and not kw and args[0].tag == "op" and args[0].args[0] in ("+", "-", "*") and all(
                x.tag == "c" and type(x.args[1]) is int or is_count(x) for x in args[0].args[1:]):
            return mk_op("*", const(b"\0"), args[0])
        if n == "callable" and len(args) == 1 and args[0].tag in ("lam", "fn", "bm", "cls"):
            return TRUE
        if n == "len" and len(args) == 1:
            x = args[0]
            if x.tag in ("tuple", "list") and not any(y.tag == "star" for y in x.args[0]):
                return const(len(x.args[0]))
            if x.tag in ("set", "dict") and not x.args[0]:
                return const(0)
            if x.tag == "ite" and (st is None or self._collection(x)):
                return mk_ite(x.args[0], self._builtin(n, [x.args[1]], [], st, node), self._builtin(n, [x.args[2]], [], st, node))
            if x.tag == "c" and isinstance(cval(x), (str, bytes)):
                return const(len(cval(x)))
            c = self.typeof(x)
            if c:
                f = self.repo.lookup(c, "__len__")
                if f is not None and self._can_inline(f):
                    return self._call_func(f, [x], [], st, node)
            if x.tag == "map" and x.args[2] is TRUE:
                return t("call", t("b", "len"), (x.args[1],), ())
            if x.tag == "map":
                return mk_sum(const(0), t("map", const(1), x.args[1], x.args[2]))
            if x.tag == "call" and x.args[0] in (t("b", "list"), t("b", "tuple")) and len(x.args[1]) == 1 and not x.args[2]:
                return self._builtin("len", list(x.args[1]), [], st, node)
            return t("call", t("b", "len"), (x,), ())
        if n == "bool" and len(args) == 1:
            c = self.cond(args[0])
            return c if is_boolish(c) else t("call", t("b", "bool"), (c,), ())
        if n == "int" and len(args) == 1 and not kw and args[0].tag == "ite" and all(is_const(y) or is_boolish(y) for y in args[0].args[1:]):
            return mk_ite(args[0].args[0], *(self._builtin(n, [y], [], st, node) for y in args[0].args[1:]))
        if n == "int" and len(args) == 1 and not kw and is_boolish(args[0]) and not is_const(args[0]):
            return mk_ite(args[0], const(1), const(0))
        if n == "int" and len(args) == 1 and not kw and self.typeof(args[0]):
            f = self.repo.lookup(self.typeof(args[0]), "__int__")
            if f is not None and self._can_inline(f):
                return self._call_func(f, [args[0]], [], st, node)
        if n == "str" and len(args) == 1 and args[0].tag == "c" and isinstance(cval(args[0]), (str, int)):
            return const(str(cval(args[0])))
        if n == "int" and len(args) == 1 and args[0].tag == "c" and isinstance(cval(args[0]), (int, float)) and cval(args[0]) == cval(args[0]) and abs(cval(args[0])) < 1e300:
            return const(int(cval(args[0])))
        if n == "range":
            if len(args) == 1:
                x = args[0]
                if x.tag == "ite":
                    return mk_ite(x.args[0], *(self._builtin(n, [y], [], st, node) for y in x.args[1:]))
                if x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] == "len":
                    return _rangelen(canon_iter(x.args[1][0]))
                if is_const(x) and isinstance(cval(x), int) and 0 <= cval(x) <= 12:
                    return t("tuple", tuple(const(i) for i in range(cval(x))))
            if len(args) == 2 and args[0] is const(0):
                return self._builtin("range", args[1:], kw, st, node)
            return t("call", t("b", "range"), tuple(args), ())
        if n in ("max", "min") and len(args) == 2 and not kw and not any(x.tag == "star" for x in args):
            a, b = args
            if b.tag == "c" and a.tag != "c":
                a, b = b, a
            return mk_ite(mk_lt(a, b) if n == "max" else mk_lt(b, a), b, a)
        if n == "enumerate":
            x = canon_iter(args[0])
            start = args[1] if len(args) > 1 else dict(kw).get("start")
            if x.tag in ("tuple", "list") and start is None:
                return t("tuple", tuple(t("tuple", (const(i), y)) for i, y in enumerate(x.args[0])))
            return t("enumerate", x, start)
        if n == "zip":
            if all(a.tag in ("tuple", "list") for a in args) and args:
                return t("tuple", tuple(t("tuple", tuple(z)) for z in zip(*[a.args[0] for a in args])))
            return t("zip", tuple(args))
        if n in ("any", "all") and len(args) == 1:
            x = args[0]
            if x.tag == "map":
                c = self.cond(x.args[0])
                if n == "any":
                    return self._exists(x.args[1], mk_and(x.args[2], c))
                return mk_not(self._exists(x.args[1], mk_and(x.args[2], mk_not(c))))
            if x.tag in ("list", "tuple"):
                return (mk_or if n == "any" else mk_and)(*[self.cond(y) for y in x.args[0]])
            ci = canon_iter(x)
            e = t("elem", ci)
            return self._exists(ci, e) if n == "any" else mk_not(self._exists(ci, mk_not(e)))
        if n == "sum" and args:
            x = args[0]
            init = args[1] if len(args) > 1 else dict(kw).get("start", const(0))

            def total(x):
                if x.tag == "ite":
                    return mk_ite(x.args[0], total(x.args[1]), total(x.args[2]))
                if x.tag in ("list", "tuple"):
                    acc = init
                    for y in x.args[0]:
                        acc = y if (is_const(acc) and cval(acc) == 0) else mk_op("+", acc, y)
                    return acc
                if x.tag != "map":
                    it, el, g = self.iter_elem(x, st)
                    x = t("map", el, it, g)
                return mk_sum(init, x)
            return total(x)
        if n == "map" and len(args) == 2:
            it, el, g = self.iter_elem(args[1], st)
            self.loop_iters.append(it)
            self.prefix.append(st.pc)
            b = st.copy(TRUE)
            v = self.call(args[0], [el], [], b, node)
            self.prefix.pop()
            self.loop_iters.pop()
            return t("map", v, it, g)
        if n == "filter" and len(args) == 2:
            it, el, g = self.iter_elem(args[1], st)
            if args[0] is NONE:
                c = el
            else:
                b = st.copy(TRUE)
                c = self.cond(self.call(args[0], [el], [], b, node))
            return t("map", el, it, mk_and(g, c))
        if n == "sorted" and args:
            return self._sorted(args[0], kw, st)
        if n == "hasattr" and len(args) == 2:
            c = self.typeof(args[0])
            return t("hasattr", args[0], args[1])
        if n == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), st, node)
        if n == "setattr" and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], st, node)
            return NONE
        if n == "type" and len(args) == 1:
            return t("call", t("b", "type"), tuple(args), ())
        if n in ("list", "tuple", "set", "dict") and not args and not kw:
            return t(n, ())
        if n in ("list", "tuple") and len(args) == 1 and args[0].tag in ("list", "tuple"):
            return t(n, args[0].args[0])
        if n in ("bytes", "bytearray") and len(args) == 1 and not kw:
            x = args[0]
            v = None
            if x.tag in ("list", "tuple") and x.args[0] and all(is_const(y) and type(cval(y)) is int and 0 <= cval(y) < 256 for y in x.args[0]):
                v = bytes(cval(y) for y in x.args[0])
            elif is_const(x) and type(cval(x)) is int and 0 < cval(x) <= 64:
                v = bytes(cval(x))
            elif is_const(x) and isinstance(cval(x), bytes):
                v = cval(x)
            if v is not None:
                return const(v) if n == "bytes" else t("call", t("b", n), (const(v),), ())
        if n == "list" and len(args) == 1 and (args[0].tag in ("map", "extend", "cat", "flatmap") or self._listish(args[0])):
            return args[0]
        if n == "list" and len(args) == 1 and not kw:
            x = canon_iter(args[0])
            if x.tag in ("map", "extend", "cat", "flatmap"):
                return x
            if x.tag in ("v", "a", "i", "call", "new", "fold", "sorted") and not is_strish(x):
                return t("map", t("elem", x), x, TRUE)
        if n == "dict" and not args:
            return t("dict", tuple((const(k), v) for k, v in kw))
        if n in ("pow",) and len(args) == 2:
            return mk_op("**", args[0], args[1])
        if n == "divmod" and len(args) == 2:
            return t("tuple", (mk_op("//", args[0], args[1]), mk_op("%", args[0], args[1])))
        if n == "abs" and is_const(args[0]):
            return const(abs(cval(args[0])))
        res = t("call", t("b", n), tuple(args), tuple(sorted(kw, key=lambda p: p[0])))
        self._event(kind="call", name=n, recv=None, args=tuple(args), kw=tuple(kw), st=st, node=node, res=res, obj="b:" + n)
        return res

    def _cls_names(self, c):
        if c.tag in ("tuple", "list"):
            out = []
            for y in c.args[0]:
                out += self._cls_names(y)
            return out
        if c.tag == "cls":
            return [c.args[0]]
        if c.tag == "b":
            return ["b:" + c.args[0]]
        if c.tag == "ext":
            return ["ext:" + c.args[0]]
        return ["?" + repr(c)]

    def _isinstance(self, x, c):
        names = tuple(sorted(self._cls_names(c)))
        if x.tag == "ite":
            return mk_ite(x.args[0], self._isinstance(x.args[1], c), self._isinstance(x.args[2], c))
        if x is NONE:
            return FALSE
        ct = self.typeof(x)
        if x.tag in ("new",) or (ct and x.tag == "enum"):
            if any(n in self.repo.mro(ct) for n in names):
                return TRUE
            if all(not n.startswith("?") and not n.startswith("ext:") for n in names):
                bases = self.repo.mro(ct)
                if not any((b.startswith("b:") or b.startswith("ext:")) and b not in ("ext:abc.ABC", "b:object") for b in bases) or not any(n.startswith("b:") for n in names):
                    return FALSE
        elif ct and any(n in self.repo.mro(ct) for n in names):
            return TRUE
        if x.tag == "c":
            v = cval(x)
            bs = {"b:str": str, "b:int": int, "b:bytes": bytes, "b:bool": bool, "b:float": float, "b:dict": dict, "b:list": list,
                  "b:tuple": tuple, "b:bytearray": bytearray}
            if all(n in bs or n in self.repo.classes for n in names):
                return const(any(n in bs and isinstance(v, bs[n]) for n in names))
        if x.tag in ("list", "tuple", "dict", "map", "cat", "extend"):
            tn = {"list": "b:list", "tuple": "b:tuple", "dict": "b:dict"}.get(x.tag, "b:list")
            if tn in names:
                return TRUE
            if all(n.startswith("b:") or n in self.repo.classes for n in names):
                return FALSE
        if x.tag == "fmt" and "b:str" in names:
            return TRUE
        if not ct and x.tag == "call" and (x.args[0].tag == "a" and x.args[0].args[1] == "hex" or x.args[0].tag == "b" and x.args[0].args[0] == "str"):
            if "b:str" in names:
                return TRUE
            if all(n.startswith("b:") or n in self.repo.classes for n in names):
                return FALSE
        if x.tag == "call" and x.args[0].tag == "a" and x.args[0].args[1] == "encode" and not ct:
            if "b:bytes" in names:
                return TRUE
            if all(n.startswith("b:") or n in self.repo.classes for n in names):
                return FALSE
        if "b:int" in names and ((x.tag == "op" and x.args[0] in ("<<", ">>", "|", "&")) or (
                x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("len", "int", "ord"))):
            return TRUE
        return t("isinst", x, names)


class TryRec:
    def __init__(self, node, frame, depth, nloops):
        self.node, self.frame, self.depth, self.nloops = node, frame, depth, nloops
        self.names = []
        self.got = {}
        self.env = None

    def resolve(self, interp, st):
        for h in self.node.handlers:
            if h.type is None:
                self.names.append(["b:BaseException"])
                continue
            n = len(interp.events)
            v = interp._ev(h.type, st.copy())
            del interp.events[n:]
            self.names.append(interp._cls_names(v))

    def match(self, interp, name):
        if name in ("reraise", "?", None):
            return None
        for i, ns in enumerate(self.names):
            for n in ns:
                if exc_is_sub(interp.repo, name, n):
                    return self.got.setdefault(i, [])
        return None


def exc_is_sub(repo, a, b):
    if a == b:
        return True
    if b in ("b:BaseException",):
        return True
    if b == "b:Exception":
        return True
    if a.startswith("b:") and b.startswith("b:"):
        x, y = EXC_BASE.get(a[2:]), EXC_BASE.get(b[2:])
        return bool(x and y and issubclass(x, y))
    if a in repo.classes:
        m = repo.mro(a)
        if b in m:
            return True
        if b.startswith("b:"):
            return any(z.startswith("b:") and exc_is_sub(repo, z, b) for z in m if z != a)
    return False


HARMLESS = {"str", "repr", "print", "format", "isinstance", "type", "hasattr", "len", "bool", "append", "copy", "sort"}


def _can_raise(e):
    return e.kind == "index" or e.kind == "call" and not getattr(e, "inlined", False) and e.name not in HARMLESS and not getattr(e, "safe", False)


# signing looks nothing up by a key, and neither does reading one value
NO_KEY = {"input_hash_new", "sign", "signature_fulfill"}
VALUES = {"Hash", "BinaryData", "UnlockHash", "ERC20Address", "ERC20Hash", "Currency", "Blockstake", "BotName", "NetworkAddress", "PublicKey"}


def _keyless(e):
    if e.kind != "call":
        return False
    if e.name in NO_KEY:
        return True
    q = (e.obj if isinstance(e.obj, str) else "").split(".")
    return q[-1] in VALUES or q[-1] == "from_json" and len(q) > 1 and q[-2] in VALUES


def _key_errors(names):
    return bool(names) and set(names) <= {"b:KeyError"}


def _try_scope(events, names=()):
    """what can raise in the body of a try: the operations left opaque, by name (an identity that survives refactoring)"""
    out, less = set(), set()
    for e in events:
        if e.kind == "call" and _can_raise(e):
            out.add(str(e.name))
            if not _keyless(e):
                less.add(str(e.name))
        elif e.kind == "index":
            k = "[%s]" % (repr(cval(e.val)) if is_const(e.val) else "")
            out.add(k)
            less.add(k)
    if _key_errors(names) and less:
        out = less
    return " ".join(sorted(out))


def _only_key(events, names):
    """a handler for the one missing key that the body of a try can meet: its condition, else None"""
    rs = [e for e in events if (e.kind == "call" and _can_raise(e) and not (_key_errors(names) and _keyless(e))) or e.kind in ("index", "raise")]
    if len(rs) != 1 or rs[0].kind != "index" or rs[0].loops or set(names) - {"b:KeyError", "b:LookupError", "KeyError", "LookupError"}:
        return None
    v, b = rs[0].val, rs[0].obj
    if v is None or b is None or v.tag != "c" or not isinstance(v.args[1], str):
        return None
    return mk_not(t("in", v, b))


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}


def mk_join(sep, xs):
    if sep is not const("") or not (xs.tag in ("ite", "cat") or xs.tag == "list" and (not xs.args[0] or all(is_strish(x) for x in xs.args[0]))):
        return t("join", sep, xs)
    if xs.tag == "list":
        return mk_text(xs.args[0]) if xs.args[0] else sep
    if xs.tag == "ite":
        p, q = mk_join(sep, xs.args[1]), mk_join(sep, xs.args[2])
        return t("join", sep, xs) if "join" in (p.tag, q.tag) else mk_ite(xs.args[0], p, q)
    p = mk_join(sep, xs.args[0])
    return t("join", sep, xs) if p.tag == "join" or not is_strish(xs.args[1]) else mk_op("+", p, xs.args[1])


def n_sample(q, args, kw):
    return q == "random.sample" and len(args) == 2 and not kw and args[1] is t("call", t("b", "len"), (args[0],), ())


def mk_sum(init, m):
    s = t("sum", m)
    if is_const(init) and cval(init) == 0:
        return s
    if init.tag == "new" and init.args[0].endswith(".Currency") and not init.args[2] and not init.args[3]:
        return s
    return mk_op("+", init, s)


def position(x):
    """how far a loop over x is; over a range that is its element"""
    return t("elem" if is_range(x) else "idx", x)


def is_position(i):
    return i.tag == "idx" or i.tag == "elem" and is_range(i.args[0])


def is_range(x):
    return x.tag == "call" and x.args[0] is t("b", "range") and len(x.args[1]) == 1 and not x.args[2]


def start_of(x):
    """the sequence whose elements x has one by one, or begins with"""
    if is_head(x):
        x = canon_iter(x.args[0])
    while x.tag == "map" and x.args[2] is TRUE:
        x = x.args[1]
    return x


def is_head(x):
    """xs[:k] where k is known to be a position in xs (or 0)"""
    if x.tag != "i" or x.args[1].tag != "slice" or not (x.args[1].args[0] is NONE or x.args[1].args[0] is const(0)) or x.args[1].args[2:] not in ((), (NONE,)):
        return False
    k, b = x.args[1].args[1], canon_iter(x.args[0])
    while b.tag == "map" and b.args[2] is TRUE:
        b = b.args[1]

    def at(v):
        if v.tag == "ite":
            return at(v.args[1]) and at(v.args[2])
        return v.tag == "phi" or v.tag == "idx" and v.args[0] is b or v.tag == "elem" and v.args[0] is b and is_range(b)
    return k.tag == "fold" and k.args[0] is const(0) and k.args[1] is b and at(k.args[2])


def pieces(it):
    """the sequences a concatenation of them is made of"""
    if it.tag == "extend":
        return [canon_iter(x) for x in it.args[:2]]
    if it.tag == "cat":
        return [canon_iter(it.args[0]), t("list", (it.args[1],))]
    if it.tag == "op" and it.args[0] == "+" and len(it.args) == 3:
        return [canon_iter(x) for x in it.args[1:]]
    return None


def entries(d):
    """the keys and values put in a dictionary, one after another"""
    if d.tag == "dictof":
        return d.args[0]
    if d.tag == "dict":
        return t("list", tuple(t("tuple", x) for x in d.args[0]))
    return t("entries", d)


def dict_of(s):
    if s.tag == "extend" and s.args[0].tag == "entries" and s.args[1].tag == "map" and s.args[1].args[2] is TRUE:
        # every entry given a new value
        d, (v, it, _) = s.args[0].args[0], s.args[1].args
        if it is t("call", attr(d, "items"), (), ()) and v.tag == "tuple" and len(v.args[0]) == 2 and v.args[0][0] is mk_index(t("elem", it), const(0)):
            s = s.args[1]
    return s.args[0] if s.tag == "entries" else t("dictof", s)


def after(s, p):
    """what follows p in the sequence s"""
    if s.tag == "extend":
        if s.args[0] is p:
            return s.args[1]
        x = after(s.args[0], p)
        return None if x is None else t("extend", x, s.args[1])
    return None


def halves(it):
    """the two sequences that `it` is the concatenation of"""
    if it.tag == "extend" or it.tag == "op" and it.args[0] == "+" and any(_listy(x) for x in it.args[1:]):
        return [canon_iter(x) for x in it.args[-2:]]
    return None


def _listy(x):
    return x.tag in ("list", "map", "flatmap", "extend") or (x.tag == "call" and x.args[0].tag == "b" and x.args[0].args[0] in ("list", "sorted")) \
        or (x.tag == "op" and x.args[0] == "+" and any(_listy(y) for y in x.args[1:]))


def first_one(v, it, c):
    """a value computed from the element at hand, where that is the first one with c"""
    if it is None or not isinstance(v, T) or it.tag == "while":
        return v
    e, i = t("elem", it), position(it)
    if not mentions(v, lambda y: y is e or y is i) or mentions(c, lambda y: y.tag in ("phi", "acc")):
        return v
    return subst(v, lambda y: t("first", it, c) if y is e else t("firstidx", it, c) if y is i else None)


def mk_exists(it, c):
    if c is FALSE:
        return FALSE
    if it.tag in ("map", "flatmap") and len(it.args) == 3 and not mentions(c, lambda y: y.tag == "phi" or (y.tag == "idx" and y.args[0] is it)):
        e = t("elem", it)
        if it.tag == "flatmap":
            return mk_exists(it.args[1], mk_and(it.args[2], mk_exists(canon_iter(it.args[0]), subst(c, lambda y: t("elem", canon_iter(it.args[0])) if y is e else None))))
        return mk_exists(it.args[1], mk_and(it.args[2], subst(c, lambda y: it.args[0] if y is e else None)))
    h = halves(it)
    if h is not None and not mentions(c, lambda y: y.tag == "phi" or (y.tag == "idx" and y.args[0] is it)):
        e = t("elem", it)
        return mk_or(*[mk_exists(x, subst(c, lambda y: t("elem", x) if y is e else None)) for x in h])
    if not mentions(c, lambda y: (y.tag in ("elem", "idx") and (y.args[0] is it)) or y.tag in ("phi",) or (it.tag == "zip" and y.tag == "elem" and y.args[0] in it.args[0])):
        if it.tag == "while":
            return mk_and(c, t("exists", it, TRUE))
        if mentions(c, lambda y: y.tag == "exc"):
            return t("exists", it, c)
        return mk_and(it, c) if c is not TRUE else it
    if c.tag == "or":
        return mk_or(*[mk_exists(it, x) for x in c.args[0]])
    if c.tag == "and":
        dep = [x for x in c.args[0] if mentions(x, lambda y: (y.tag in ("elem", "idx") and y.args[0] is it) or y.tag in ("phi",)
                                                or (it.tag == "zip" and y.tag == "elem" and y.args[0] in it.args[0]))]
        ind = [x for x in c.args[0] if x not in dep]
        if ind:
            return mk_and(t("exists", it, mk_and(*dep)), *ind)
    return t("exists", it, c)


terms.some = mk_exists


def _rangelen(x):
    lit = lambda w: w.tag in ("list", "tuple") and len(w.args[0]) <= 2 and not any(y.tag == "star" for y in w.args[0])
    if x.tag == "ite" and any(lit(y) for y in x.args[1:]):
        y, z = (t("list", tuple(const(i) for i in range(len(w.args[0])))) if lit(w) else _rangelen(canon_iter(w)) for w in x.args[1:])
        return mk_ite(x.args[0], y, z)
    return t("rangelen", x)


def canon_iter(it):
    while True:
        if it.tag == "call" and it.args[0].tag == "b" and it.args[0].args[0] in ("list", "tuple", "iter") and len(it.args[1]) == 1:
            it = it.args[1][0]
        elif it.tag == "call" and it.args[0].tag == "a" and it.args[0].args[1] == "keys" and not it.args[1] and not it.args[2]:
            it = it.args[0].args[0]
        elif it.tag == "call" and it.args[0].tag == "a" and it.args[0].args[1] == "copy" and not it.args[1]:
            it = it.args[0].args[0]
        elif it.tag == "i" and it.args[1].tag == "slice" and all(x is NONE for x in it.args[1].args):
            it = it.args[0]
        elif it.tag == "map" and it.args[0].tag == "elem" and it.args[0].args[0] is it.args[1] and it.args[2] is TRUE:
            it = it.args[1]
        elif it.tag == "call" and it.args[0].tag == "ext" and it.args[0].args[0] == "itertools.chain" and len(it.args[1]) > 1 and not it.args[2] \
                and not any(x.tag == "star" for x in it.args[1]):
            ls = [t("call", t("b", "list"), (x,), ()) for x in it.args[1]]
            it = ls[0]
            for x in ls[1:]:
                it = t("op", "+", it, x)
        else:
            return it


def _strip_boolgate(v, phi):
    # ite(phi, phi, x) is  phi or x ;  ite(phi, x, phi) is phi and x
    if v.tag == "ite" and v.args[0] is phi:
        if v.args[1] is phi:
            return t("or", (phi, v.args[2]))
        if v.args[2] is phi:
            return t("and", (phi, v.args[1]))
    return v


def _load(x):
    y = ast.parse(ast.unparse(x), mode="eval").body
    for n in ast.walk(y):
        if hasattr(n, "lineno"):
            n.lineno = x.lineno
    return y


def _assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(_base(n.value), ast.Name):
                out.add(_base(n.value).id)
    return out


def _base(e):
    """the container an element of an element ... is in"""
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def _mutated(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(_base(n.func.value), ast.Name) \
                    and n.func.attr in CONTAINER_METHODS | {"add", "update"}:
                out.add(_base(n.func.value).id)
    return out


def _walk_noloop(stmts):
    for s in stmts:
        yield s
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            # loop control inside belongs to the inner loop (its else clause ignored)
            continue
        for f in ("body", "orelse", "finalbody"):
            for x in _walk_noloop(getattr(s, f, []) or []):
                yield x
        for h in getattr(s, "handlers", []) or []:
            for x in _walk_noloop(h.body):
                yield x


def _has_loop_ctl(stmts):
    return any(isinstance(s, (ast.Break, ast.Continue)) for s in _walk_noloop(stmts))


def _has_break(stmts):
    return any(isinstance(s, ast.Break) for s in _walk_noloop(stmts))


def _simple_field(fn):
    """name of the field a trivial getter returns"""
    for s in fn.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and s.value.value.id == "self":
            return s.value.attr
        # if self._x is None: return Default() ; return self._x
        if isinstance(s, ast.If):
            continue
        if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp):
            v = s.value.values[0]
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                return v.attr
        return None
    return None


def field_types(repo):
    ft = getattr(repo, "_field_types", None)
    if ft is not None:
        return ft
    cand = {}
    for f in repo.funcs.values():
        if f.cls is None:
            continue
        a = f.node.args.posonlyargs + f.node.args.args
        if not a:
            continue
        sn = a[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == sn:
                        c = _expr_class(repo, f, n.value)
                        if c:
                            cand.setdefault((f.cls.qual, tg.attr), set()).add(c)
    ft = {k: next(iter(v)) for k, v in cand.items() if len(v) == 1}
    repo._field_types = ft
    return ft


def _expr_class(repo, f, v):
    if isinstance(v, ast.Call):
        r = repo.resolve_expr(f.module, v.func)
        if r and r[0] == "cls":
            return r[1]
        if r and r[0] == "fn":
            return ret_types(repo, r[1], None)
    if isinstance(v, ast.Attribute):
        r = repo.resolve_expr(f.module, v.value)
        if r and r[0] == "cls" and v.attr in repo.named_members(r[1]):
            return r[1]
    if isinstance(v, ast.BoolOp):
        cs = {_expr_class(repo, f, x) for x in v.values} - {None}
        if len(cs) == 1:
            return next(iter(cs))
    if isinstance(v, ast.IfExp):
        cs = {_expr_class(repo, f, x) for x in (v.body, v.orelse)} - {None}
        if len(cs) == 1:
            return next(iter(cs))
    return None


def ret_types(repo, qual, recv_cls):
    c = getattr(repo, "_ret_types", None)
    if c is None:
        c = repo._ret_types = {}
    k = (qual, recv_cls)
    if k in c:
        return c[k]
    c[k] = None
    f = repo.funcs.get(qual)
    if f is None:
        return None
    out = set()
    local, names = {}, []
    clsname = None
    a = f.node.args.posonlyargs + f.node.args.args
    if f.kind == "classmethod" and a:
        clsname = a[0].arg
    selfname = a[0].arg if f.kind in ("method", "getter") and a else None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == clsname:
                local.setdefault(n.targets[0].id, set()).add(recv_cls or (f.cls.qual if f.cls else None))
            elif isinstance(v, ast.Name):
                names.append((n.targets[0].id, v.id))
                if not any(isinstance(z, ast.Name) and z.id == v.id and not isinstance(z.ctx, ast.Load) for z in ast.walk(f.node)):
                    local.setdefault(n.targets[0].id, set()).add(None)
            else:
                local.setdefault(n.targets[0].id, set()).add(_expr_class(repo, f, v))
    for _ in range(3):
        for x, y in names:
            if y in local:
                local.setdefault(x, set()).update(local[y])
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == clsname:
                out.add(recv_cls or f.cls.qual)
            elif isinstance(v, ast.Name) and v.id in local:
                out |= local[v.id]
            elif isinstance(v, ast.Name) and selfname and v.id == selfname:
                out.add(f.cls.qual)
            elif isinstance(v, ast.Constant) and v.value is None:
                pass
            else:
                out.add(_expr_class(repo, f, v))
    if len(out) == 1:
        c[k] = next(iter(out))
    return c[k]


class Result:
    def __init__(self, interp, fn, val, st):
        self.interp, self.fn, self.val, self.st = interp, fn, val, st
        self.events = interp.events
        self.heap = st.heap if st is not None else {}
        self.pc = st.pc if st is not None else FALSE

    def deflam(self, x):
        """function values replaced by what they compute for symbolic arguments"""
        it = self.interp

        def go(y):
            if isinstance(y, T) and y.tag == "lam" and y.args[0] in it.lams:
                a = it.lams[y.args[0]].node.args
                ps = [t("par", i) for i in range(len(a.posonlyargs + a.args))]
                if a.vararg:
                    ps.append(t("star", t("par", "*")))
                s2 = State({}, dict(self.heap), TRUE)
                fr = it.lams[y.args[0]].frame
                it.stack.append(fr)
                v = it._apply_lam(y, ps, [], s2, it.lams[y.args[0]].node, quiet=True)
                it.stack.pop()
                return t("fun", len(ps), v if v is not None else NONE, s2.pc)
            return None
        return subst(x, go) if isinstance(x, T) else x

    def deep(self, x, heap=None):
        """x with every object constructed here replaced by the object together with its fields as stored (by the end of the
        function, or in the given heap)"""
        by = {}
        for (u, n), (o, _, v) in (self.heap if heap is None else heap).items():
            if o.tag == "new":
                by.setdefault(u, []).append((n, v))
        if not by or not isinstance(x, T):
            return x
        busy = set()

        def go(y):
            if y.tag == "new" and y.uid in by and y.uid not in busy:
                busy.add(y.uid)
                # what the constructor did with its arguments is in the fields
                z = t("new", y.args[0], y.args[1], (), ()) if y.uid in self.interp.built else y
                r = t("made", z, tuple((const(n), subst(v, go) if isinstance(v, T) else v) for n, v in sorted(by[y.uid], key=lambda p: p[0])))
                busy.discard(y.uid)
                return r
            return None
        return subst(x, go)

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (e.name in names or e.obj in names)]

    def returns(self):
        """return events of the entry function itself"""
        return [e for e in self.events if e.kind == "return" and len(e.stack) == 1]

    def raises(self):
        return [e for e in self.events if e.kind == "raise" and not e.caught]

    def field(self, obj, n):
        x = self.heap.get((obj.uid, n))
        return x[2] if x else attr(obj, n)
