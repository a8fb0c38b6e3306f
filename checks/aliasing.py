"""P13: what callers pass (and what is kept of it) is not modified"""
import ast

from rtsa.alias import Aliases
from rtsa.model import AnalysisBroken, dotted
from rtsa.report import Report


def public(f):
    """functions that users call: (with constructors, special methods, setters)"""
    n = f.node.name
    if f.parent is not None:
        return False
    return not n.startswith("_") or n in ("__init__", "__call__", "__getitem__", "__setitem__", "__setattr__", "__getattr__", "__new__", "__contains__", "__iter__")


def params(f):
    a = f.node.args
    return [x for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None] if x.arg not in ("self", "cls")]


def defaults(f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    yield from zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults)
    yield from ((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "array", "deque", "zeros", "ones", "empty"))


def p13(P, tier):
    rep = Report("P13", tier, "May-alias / may-modify analysis of all functions of the package: values are followed through assignments, containers, views, attributes, properties and calls "
                 "(summaries over the call graph); a modification (item or slice assignment, deletion, modifying container and table methods, inplace=True, out=, in-place operators, "
                 "setting index / columns / names) of something that is, or is part of, an argument of a public function, an object kept from an earlier call, "
                 "the data of a fit, a default value or a cached value is a violation.")
    A = Aliases(P)
    n = 0
    for f in A.funcs.values():
        where = f"{f.file}:{f.lineno} {f.qual}"
        if f.parent is None:
            rep.analysed.add(f.qual)
        if public(f):
            n += 1
            for x in params(f):
                site = A.sum[f.node].mut.get(("param", x.arg))
                rep.check(site is None, f"argument:{f.qual}:{x.arg}" if site is None else f"argument:{f.qual}:{x.arg}:{site.how}",
                          f"the argument {x.arg} is not modified" if site is None else f"modifies the argument {x.arg}: {site.text()}", where)
        for name, d in defaults(f):
            if mutable(d):
                site = A.sum[f.node].mut.get(("param", name)) if f.parent is None else None
                rep.check(site is None, f"default:{f.qual}:{name}", f"the default value of {name} is not modified" if site is None else f"modifies the default value of {name}: {site.text()}", where)
    if n < 60:
        raise AnalysisBroken("public functions not found")
    hit = set()
    for (o, q, how), site in A.sites.items():
        hit.add(o)
        what = {"attr": f"the attribute {o[1]} holds data or an object that has been passed by the user ({next(iter(A.attrs.get(o[1], {0: ''}).values()))})",
                "cached": f"{o[1]} is the value of a cached property"}[o[0]]
        rep.check(False, f"{o[0]}:{o[1]}:{q}:{how}", f"modified: {site.text()}; {what}", f"{site.func.file}:{getattr(site.node, 'lineno', 0)} {site.func.qual}")
    for a in sorted(A.attrs):
        if ("attr", a) not in hit:
            rep.check(True, f"attr:{a}", f"objects kept in .{a} are not modified in place", "rt1")
    for a in sorted(A.props):
        if any(m.is_cached for m in A.props[a]) and ("cached", a) not in hit:
            rep.check(True, f"cached:{a}", f"the value of the cached .{a} is not modified in place", "rt1")
    rep.minimum = 300
    return rep


CHECKS = {"P13": p13}
