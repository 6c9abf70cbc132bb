"""Reference tables: a function of the repository against a reference function."""

from ..core import *
from ..lib import *
from ..terms import *
from ..terms import T, t


def table(ctx, rows, **common):
    """rows: (key, class qual or None, method name or function qual, reference source, message, options)"""
    for row in rows:
        key, cls, name, src, msg = row[:5]
        opt = dict(common)
        opt.update(row[5] if len(row) > 5 else {})
        f = find(ctx, cls, name, opt.pop("setter", False))
        result_rule(ctx, key, f, src, cls, msg=msg, **opt)


def find(ctx, cls, name, setter=False):
    r = ctx.repo
    if cls is None:
        f = r.funcs.get(name)
    elif setter:
        f = next((r.classes[c].setters[name] for c in r.mro(cls) if c in r.classes and name in r.classes[c].setters), None)
    else:
        f = r.method(cls, name)
    ctx.need(f is not None, "%s.%s not found" % (cls, name) if cls else "%s not found" % name)
    return f
