"""tables with symbolic cells: the part of pandas that is used to store and to load fits"""
import ast

from rtsa import vn
from rtsa.alg import sym

from .effects import Thing, bind


class NA(vn.ModelObj):
    """a missing value"""

    def key(self):
        return "nan"


NAN = NA()


class StrOf(vn.ModelObj):
    """str(v) of a value that is not a plain string"""

    def __init__(self, v):
        self.v = v

    def key(self):
        return f"str({vn.key(self.v)})"


def label(x):
    """hashable identity of a label"""
    return (type(x).__name__ if isinstance(x, str) else "", vn.key(x))


def same(a, b):
    return label(a) == label(b)


def listed(ev, v):
    """items of a list-like value, None if unknown"""
    if isinstance(v, Idx):
        return list(v.labels())
    if isinstance(v, Ser):
        return list(v.vals)
    if isinstance(v, Arr):
        return list(v.vals)
    if isinstance(v, (str, DF)):
        return None
    return ev.concrete(v)


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        if label(x) not in seen:
            seen.add(label(x))
            out.append(x)
    return out


def seq(xs):
    return vn.Seq(list(xs), "list")


def tup(xs):
    return vn.Seq(list(xs), "tuple")


class Arr(vn.ModelObj):
    """an array (1D, or the rows of a table)"""

    def __init__(self, vals, shape=None):
        self.vals = list(vals)

    def key(self):
        return "array[" + ",".join(vn.key(v) for v in self.vals) + "]"

    def attr(self, ev, name, env):
        if name in ("flat", "T"):
            return self
        if name == "size":
            return len(self.vals)
        return NotImplemented

    def iter(self, ev):
        return list(self.vals)

    def item(self, ev, idx):
        if isinstance(idx, int) and not isinstance(idx, bool):
            try:
                return self.vals[idx]
            except IndexError:
                raise vn.PyRaise("IndexError")
        return NotImplemented

    def contains(self, ev, x):
        return any(same(x, v) for v in self.vals)

    def method(self, ev, name, args, kw, env):
        if name in ("tolist", "to_list"):
            return seq(self.vals)
        if name in ("copy", "ravel", "flatten", "squeeze", "astype"):
            return Arr(self.vals)
        if name == "item":
            return self.vals[args[0] if args else 0]
        if name == "any" and all(isinstance(v, bool) for v in self.vals):
            return any(self.vals)
        if name in ("argmax", "argmin", "nonzero") and all(isinstance(v, bool) for v in self.vals):
            if name == "nonzero":
                return tup([Arr([i for i, v in enumerate(self.vals) if v])])
            return self.vals.index(name == "argmax")
        return NotImplemented


class Idx(vn.ModelObj):
    """an index: tuples of labels"""

    def __init__(self, rows, names=None):
        self.rows = [tuple(r) for r in rows]
        n = len(self.rows[0]) if self.rows else (len(names) if names else 1)
        self.names = list(names) if names is not None else [None] * n
        self.nl = len(self.names)

    def key(self):
        return f"index[{','.join(map(str, self.names))}](" + ";".join(",".join(vn.key(x) for x in r) for r in self.rows) + ")"

    def labels(self):
        return [r[0] if self.nl == 1 else tup(r) for r in self.rows]

    def find(self, lab):
        """positions of a label"""
        if isinstance(lab, vn.Seq) and lab.kind == "tuple" and self.nl > 1:
            p = lab.items
        else:
            p = [lab]
        if len(p) > self.nl:
            raise vn.PyRaise("KeyError")
        return [i for i, r in enumerate(self.rows) if all(same(a, b) for a, b in zip(r, p))], len(p)

    def lev(self, n):
        if isinstance(n, int) and not isinstance(n, bool):
            return n if n >= 0 else self.nl + n
        if n in self.names:
            return self.names.index(n)
        raise vn.PyRaise("KeyError")

    def take(self, pos):
        return Idx([self.rows[i] for i in pos], self.names)

    def attr(self, ev, name, env):
        if name == "names":
            return seq(self.names)
        if name == "name":
            return self.names[0] if self.nl == 1 else None
        if name == "nlevels":
            return self.nl
        if name in ("size",):
            return len(self.rows)
        if name == "empty":
            return not self.rows
        if name == "shape":
            return tup([len(self.rows)])
        if name == "values":
            return Arr(self.labels())
        if name == "is_unique":
            return len(uniq(self.labels())) == len(self.rows)
        if name == "is_monotonic_increasing":
            return True
        if name == "levels":
            return seq(Idx([(x,) for x in uniq(r[i] for r in self.rows)], [self.names[i]]) for i in range(self.nl))
        return NotImplemented

    def setattr(self, ev, name, v, env):
        if name == "name" and self.nl == 1:
            self.names = [v]
        elif name == "names":
            self.names = list(ev.concrete(v))

    def iter(self, ev):
        return self.labels()

    def contains(self, ev, x):
        return bool(self.find(x)[0])

    def item(self, ev, idx):
        if isinstance(idx, vn.SliceV):
            s = idx.concrete() if hasattr(idx, "concrete") else None
            if isinstance(s, slice):
                return Idx(self.rows[s], self.names)
            return NotImplemented
        if isinstance(idx, int) and not isinstance(idx, bool):
            try:
                return self.labels()[idx]
            except IndexError:
                raise vn.PyRaise("IndexError")
        m = mask(ev, idx)
        if m is not None:
            return self.take([i for i, b in enumerate(m) if b])
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "get_loc":
            p, n = self.find(args[0])
            if not p:
                raise vn.PyRaise("KeyError")
            if len(p) == 1 and n == self.nl:
                return p[0]
            return vn.SliceV(p[0], p[-1] + 1, None)
        if name in ("tolist", "to_list"):
            return seq(self.labels())
        if name == "get_level_values":
            i = self.lev(args[0])
            return Idx([(r[i],) for r in self.rows], [self.names[i]])
        if name == "unique":
            i = self.lev(args[0] if args else kw["level"]) if args or "level" in kw else None
            if i is not None:
                return Idx([(x,) for x in uniq(r[i] for r in self.rows)], [self.names[i]])
            return Idx(list({tuple(map(label, r)): r for r in self.rows}.values()), self.names)
        if name in ("copy", "sort_values", "remove_unused_levels"):
            return Idx(self.rows, self.names)
        if name in ("droplevel",):
            keep = [i for i in range(self.nl) if i != self.lev(args[0] if args else 0)]
            return Idx([tuple(r[i] for i in keep) for r in self.rows], [self.names[i] for i in keep])
        if name == "rename":
            return Idx(self.rows, [args[0] if args else kw["name"]])
        if name in ("set_names",):
            n = args[0] if args else kw["names"]
            return Idx(self.rows, list(ev.concrete(n)) if not isinstance(n, str) else [n])
        if name == "isin":
            xs = listed(ev, args[0])
            if xs is not None:
                return Arr([any(same(x, r[0] if self.nl == 1 else tup(r)) for x in xs) for r in self.rows])
        return NotImplemented

    def compare(self, ev, op, other):
        if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(other, (vn.ModelObj, vn.Seq, vn.DictV)):
            return Arr([(same(l, other)) == isinstance(op, ast.Eq) for l in self.labels()])
        return NotImplemented


def to_idx(ev, v):
    if isinstance(v, Idx):
        return Idx(v.rows, v.names)
    if isinstance(v, Ser):
        return Idx([(x,) for x in v.vals], [v.name])
    if isinstance(v, vn.Range):
        c = ev.concrete(v)
        return None if c is None else Idx([(x,) for x in c])
    c = listed(ev, v)
    if c is None:
        return None
    return Idx([(x,) for x in c])


def mask(ev, v):
    if isinstance(v, DF) and len(v.cols) == 1:
        v = Arr(next(iter(v.cols.values())))
    if isinstance(v, (Arr, Ser)) and v.vals and all(isinstance(x, bool) for x in v.vals):
        return v.vals
    if isinstance(v, vn.Seq) and v.items and all(isinstance(x, bool) for x in v.items):
        return v.items
    return None


class Loc(vn.ModelObj):
    def __init__(self, o, pos=False):
        self.o, self.pos = o, pos

    def key(self):
        return f"{vn.key(self.o)}.{'i' if self.pos else ''}loc"

    def item(self, ev, idx):
        col = None
        if isinstance(idx, vn.Seq) and idx.kind == "tuple" and isinstance(self.o, DF) and len(idx.items) == 2 and (
                self.o.index.nl == 1 or isinstance(idx.items[1], (vn.SliceV, vn.Seq)) or (isinstance(idx.items[1], str) and idx.items[1] in self.o.cols)):
            idx, col = idx.items
            if isinstance(col, vn.SliceV):
                col = None
        r = self.rows(ev, idx)
        if r is NotImplemented or col is None:
            return r
        if self.pos and isinstance(col, int) and isinstance(r, DF):
            return r.col(list(r.cols)[col])
        if isinstance(r, Ser):
            return Loc(r).item(ev, col)
        if isinstance(r, DF):
            return r.item(ev, col)
        return NotImplemented

    def rows(self, ev, idx):
        o = self.o
        if isinstance(idx, vn.SliceV):
            s = idx.concrete() if hasattr(idx, "concrete") else None
            if isinstance(s, slice) and (self.pos or (s.start is None and s.stop is None)):
                return o.take(range(len(o.index.rows))[s])
            return NotImplemented
        m = mask(ev, idx)
        if m is not None:
            return o.take([i for i, b in enumerate(m) if b])
        if self.pos:
            if isinstance(idx, int) and not isinstance(idx, bool):
                try:
                    return o.row(range(len(o.index.rows))[idx])
                except IndexError:
                    raise vn.PyRaise("IndexError")
            c = listed(ev, idx)
            return o.take(c) if c is not None and all(isinstance(i, int) for i in c) else NotImplemented
        if isinstance(idx, (Idx, Ser, Arr)) or (isinstance(idx, vn.Seq) and idx.kind == "list"):
            c = listed(ev, idx)
            pos = [p for x in c for p in o.index.find(x)[0]]
            if any(not o.index.find(x)[0] for x in c):
                raise vn.PyRaise("KeyError")
            return o.take(pos)
        pos, n = o.index.find(idx)
        if not pos:
            raise vn.PyRaise("KeyError")
        if n == o.index.nl:
            return o.row(pos[0]) if len(pos) == 1 else o.take(pos)
        r = o.take(pos)
        r.index = Idx([x[n:] for x in r.index.rows], r.index.names[n:])
        return r


class Ser(vn.ModelObj):
    def __init__(self, vals, index, name=None):
        self.vals, self.index, self.name = list(vals), index, name

    def key(self):
        return "series(" + ",".join(f"{vn.key(l)}={vn.key(v)}" for l, v in zip(self.index.labels(), self.vals)) + ")"

    def take(self, pos):
        pos = list(pos)
        return Ser([self.vals[i] for i in pos], self.index.take(pos), self.name)

    def row(self, i):
        return self.vals[i]

    def attr(self, ev, name, env):
        if name in ("loc", "iloc", "at", "iat"):
            return Loc(self, name[0] == "i")
        if name == "index":
            return self.index
        if name == "values":
            return Arr(self.vals)
        if name == "name":
            return self.name
        if name == "empty":
            return not self.vals
        if name == "size":
            return len(self.vals)
        if name == "shape":
            return tup([len(self.vals)])
        if name == "hasnans":
            return any(v is NAN for v in self.vals)
        if name == "cat":
            return Thing("cat accessor")
        return NotImplemented

    def iter(self, ev):
        return list(self.vals)

    def contains(self, ev, x):
        return self.index.contains(ev, x)

    def item(self, ev, idx):
        return Loc(self).item(ev, idx)

    def compare(self, ev, op, other):
        if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(other, (vn.Seq, vn.DictV)):
            if not isinstance(other, vn.ModelObj):
                return Ser([same(v, other) == isinstance(op, ast.Eq) for v in self.vals], self.index)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("tolist", "to_list"):
            return seq(self.vals)
        if name in ("items", "iteritems"):
            return vn.IterV([tup([l, v]) for l, v in zip(self.index.labels(), self.vals)])
        if name == "to_dict":
            return vn.DictV({l if isinstance(l, (str, int)) else vn.key(l): v for l, v in zip(self.index.labels(), self.vals)})
        if name in ("apply", "map", "transform") and len(args) == 1:
            if isinstance(args[0], vn.DictV):
                return Ser([args[0].d.get(v, NAN) for v in self.vals], self.index, self.name)
            return Ser([ev.apply(args[0], [v], {}, ev.node, env) for v in self.vals], self.index, self.name)
        if name == "dropna":
            return self.take([i for i, v in enumerate(self.vals) if v is not NAN])
        if name in ("isna", "isnull", "notna", "notnull"):
            return Ser([(v is NAN) == name.startswith("is") for v in self.vals], self.index, self.name)
        if name in ("any", "all") and all(isinstance(v, bool) for v in self.vals):
            return (any if name == "any" else all)(self.vals)
        if name == "astype":
            return Ser(astype(ev, args[0], self.vals), self.index, self.name)
        if name in ("copy", "convert_dtypes", "infer_objects"):
            return Ser(self.vals, Idx(self.index.rows, self.index.names), self.name)
        if name == "to_frame":
            return DF({(args[0] if args else kw.get("name", self.name)) or 0: list(self.vals)}, self.index)
        if name == "keys":
            return self.index
        if name in ("to_numpy",):
            return Arr(self.vals)
        if name == "item":
            return self.vals[0]
        if name in ("rename",):
            return Ser(self.vals, self.index, args[0])
        if name == "unique":
            return Arr(uniq(self.vals))
        if name == "get":
            p, _ = self.index.find(args[0])
            return self.vals[p[0]] if p else (args[1] if len(args) > 1 else None)
        return NotImplemented


def astype(ev, d, vals):
    n = d if isinstance(d, str) else vn.key(d).rstrip(">").rsplit(".", 1)[-1]
    if n in ("str",):
        return [v if v is None or v is NAN or isinstance(v, (str, StrOf)) else StrOf(ev.deep(v)) for v in vals]
    return list(vals)


def table(idx, rows, cols):
    return DF({c: [r[c] for r in rows] for c in cols}, idx)


class DF(vn.ModelObj):
    isa = ("DataFrame", "NDFrame")

    def __init__(self, cols, index, name="df"):
        self.cols, self.index, self.name = {k: list(v) for k, v in cols.items()}, index, name

    def key(self):
        return f"table[{self.index.key()}](" + ";".join(f"{k}:" + ",".join(vn.key(v) for v in vs) for k, vs in self.cols.items()) + ")"

    def content(self):
        """identity apart from the order of the columns"""
        return (self.index.key(), tuple((k, tuple(map(label, self.cols[k]))) for k in sorted(self.cols, key=str)))

    def n(self):
        return len(self.index.rows)

    def take(self, pos):
        pos = list(pos)
        return DF({k: [v[i] for i in pos] for k, v in self.cols.items()}, self.index.take(pos))

    def row(self, i):
        return Ser([v[i] for v in self.cols.values()], Idx([(k,) for k in self.cols]), self.index.labels()[i])

    def col(self, k):
        return Ser(self.cols[k], self.index, k)

    def attr(self, ev, name, env):
        if name in ("loc", "iloc", "at", "iat"):
            return Loc(self, name[0] == "i")
        if name == "index":
            return self.index
        if name == "columns":
            return Idx([(k,) for k in self.cols])
        if name == "values":
            rows = list(zip(*self.cols.values()))
            return Arr([r[0] for r in rows] if len(self.cols) == 1 else [Arr(r) for r in rows])
        if name == "empty":
            return not self.cols or not self.n()
        if name == "shape":
            return tup([self.n(), len(self.cols)])
        if name == "T":
            return DF({l: [v[i] for v in self.cols.values()] for i, l in enumerate(self.index.labels())}, Idx([(k,) for k in self.cols]))
        if name == "size":
            return self.n() * len(self.cols)
        if name in self.cols:
            return self.col(name)
        return NotImplemented

    def setattr(self, ev, name, v, env):
        if name == "index":
            i = to_idx(ev, v)
            if i is None or len(i.rows) != self.n():
                raise vn.Undecided("index of a table")
            self.index = i
        elif name == "columns":
            c = listed(ev, v)
            if c is None or len(c) != len(self.cols):
                raise vn.Undecided("columns of a table")
            self.cols = dict(zip(c, self.cols.values()))
        elif name in self.cols:
            self.setitem(ev, name, v, env)
        else:
            raise vn.Undecided(f"attribute {name} of a table")

    def iter(self, ev):
        return list(self.cols)

    def contains(self, ev, x):
        return x in self.cols

    def item(self, ev, idx):
        if isinstance(idx, (str, int)) and not isinstance(idx, bool):
            if idx not in self.cols:
                raise vn.PyRaise("KeyError")
            return self.col(idx)
        m = mask(ev, idx)
        if m is not None:
            return self.take([i for i, b in enumerate(m) if b])
        c = listed(ev, idx)
        if c is not None:
            if any(k not in self.cols for k in c):
                raise vn.PyRaise("KeyError")
            return DF({k: self.cols[k] for k in c}, self.index)
        return NotImplemented

    def fill(self, ev, v):
        if isinstance(v, Ser):
            d = {label(l): x for l, x in zip(v.index.labels(), v.vals)}
            return [d.get(label(l), NAN) for l in self.index.labels()]
        if isinstance(v, (vn.Seq, Arr, Idx, vn.IterV)):
            c = listed(ev, v)
            if len(c) != self.n():
                raise vn.PyRaise("ValueError")
            return c
        return [v] * self.n()

    def setitem(self, ev, idx, v, env):
        if isinstance(idx, str):
            self.cols[idx] = self.fill(ev, v)
            return None
        raise vn.Undecided("assignment to a part of a table")

    def delitem(self, ev, idx):
        if idx not in self.cols:
            raise vn.PyRaise("KeyError")
        del self.cols[idx]

    def compare(self, ev, op, other):
        if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(other, (vn.ModelObj, vn.Seq, vn.DictV)):
            return DF({k: [same(x, other) == isinstance(op, ast.Eq) for x in v] for k, v in self.cols.items()}, self.index)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("copy", "sort_index", "infer_objects"):
            return DF(self.cols, Idx(self.index.rows, self.index.names))
        if name == "astype":
            return DF({k: astype(ev, args[0] if args else kw["dtype"], v) for k, v in self.cols.items()}, self.index)
        if name == "iterrows":
            return vn.IterV([tup([l, self.row(i)]) for i, l in enumerate(self.index.labels())])
        if name in ("items", "iteritems"):
            return vn.IterV([tup([k, self.col(k)]) for k in self.cols])
        if name == "keys":
            return Idx([(k,) for k in self.cols])
        if name == "dropna":
            how, axis = kw.get("how", "any"), kw.get("axis", 0)
            q = (all if how == "all" else any)
            if axis in (1, "columns"):
                return DF({k: v for k, v in self.cols.items() if not q(x is NAN for x in v)}, self.index)
            return self.take([i for i in range(self.n()) if not q(v[i] is NAN for v in self.cols.values())])
        if name == "to_dict":
            o = args[0] if args else kw.get("orient", "dict")
            lab = lambda l: l if isinstance(l, (str, int)) else vn.key(l)
            if o == "list":
                return vn.DictV({k: seq(v) for k, v in self.cols.items()})
            if o == "dict":
                return vn.DictV({k: vn.DictV({lab(l): x for l, x in zip(self.index.labels(), v)}) for k, v in self.cols.items()})
            if o == "index":
                return vn.DictV({lab(l): vn.DictV({k: v[i] for k, v in self.cols.items()}) for i, l in enumerate(self.index.labels())})
            if o == "records":
                return seq(vn.DictV({k: v[i] for k, v in self.cols.items()}) for i in range(self.n()))
        if name == "xs":
            b = bind(args, kw, "key", "axis", "level")
            lv = b.get("level")
            if b.get("axis", 0) == 0:
                if lv is None:
                    return Loc(self).item(ev, b["key"])
                i = self.index.lev(lv)
                p = [j for j, r in enumerate(self.index.rows) if same(r[i], b["key"])]
                if not p:
                    raise vn.PyRaise("KeyError")
                r = self.take(p)
                if self.index.nl > 1:
                    r.index = r.index.method(ev, "droplevel", [i], {}, env)
                return r
        if name == "droplevel":
            return DF(self.cols, self.index.method(ev, "droplevel", [args[0] if args else kw.get("level", 0)], {}, env))
        if name == "reset_index":
            lv = kw.get("level", args[0] if args else None)
            ls = list(range(self.index.nl)) if lv is None else [self.index.lev(x) for x in (listed(ev, lv) if isinstance(lv, vn.Seq) else [lv])]
            new = {} if kw.get("drop") is True else {(self.index.names[i] if self.index.names[i] is not None else "index"): [r[i] for r in self.index.rows] for i in ls}
            keep = [i for i in range(self.index.nl) if i not in ls]
            ix = Idx([tuple(r[i] for i in keep) for r in self.index.rows], [self.index.names[i] for i in keep]) if keep else Idx([(i,) for i in range(self.n())])
            return DF({**new, **self.cols}, ix)
        if name == "set_index":
            b = bind(args, kw, "keys", "drop", "append")
            ks = b["keys"]
            if isinstance(ks, Idx):
                return DF(self.cols, ks)
            ks = [ks] if isinstance(ks, str) else listed(ev, ks)
            if ks is not None and all(isinstance(x, str) and x in self.cols for x in ks):
                ext = b.get("append") is True
                rows = [(tuple(self.index.rows[i]) if ext else ()) + tuple(self.cols[x][i] for x in ks) for i in range(self.n())]
                return DF({k: v for k, v in self.cols.items() if k not in ks or b.get("drop") is False}, Idx(rows, (self.index.names if ext else []) + ks))
            if any(isinstance(x, str) and x not in self.cols for x in ks or ()):
                raise vn.PyRaise("KeyError")
        if name in ("rename_axis",):
            n = args[0] if args else kw.get("index")
            if isinstance(n, str) or n is None:
                return DF(self.cols, Idx(self.index.rows, [n]))
            return DF(self.cols, Idx(self.index.rows, listed(ev, n)))
        if name == "set_axis":
            b = bind(args, kw, "labels", "axis")
            r = DF(self.cols, self.index)
            r.setattr(ev, "columns" if b.get("axis", 0) in (1, "columns") else "index", b["labels"], env)
            return r
        if name == "assign":
            r = DF(self.cols, self.index)
            for k, v in kw.items():
                r.setitem(ev, k, v, env)
            return r
        if name == "insert":
            b = bind(args, kw, "loc", "column", "value")
            ks = list(self.cols)
            vals = self.fill(ev, b["value"])
            items = list(self.cols.items())
            items.insert(b["loc"], (b["column"], vals))
            self.cols = dict(items)
            return None
        if name == "drop":
            b = bind(args, kw, "labels", "axis", "index", "columns", "errors")
            c = b.get("columns", b.get("labels") if b.get("axis") in (1, "columns") else None)
            if c is not None:
                cs = [c] if isinstance(c, str) else listed(ev, c)
                if any(x not in self.cols for x in cs) and b.get("errors") != "ignore":
                    raise vn.PyRaise("KeyError")
                r = DF({k: v for k, v in self.cols.items() if k not in cs}, self.index)
                if kw.get("inplace") is True:
                    self.cols = r.cols
                    return None
                return r
        if name == "rename" and isinstance(kw.get("columns"), vn.DictV):
            m = kw["columns"].d
            return DF({m.get(k, k): v for k, v in self.cols.items()}, self.index)
        if name in ("filter", "reindex") and ("items" in kw or "columns" in kw or (args and name == "filter")):
            c = listed(ev, kw.get("items", kw.get("columns", args[0] if args else None)))
            if c is not None:
                return DF({k: self.cols[k] if k in self.cols else [NAN] * self.n() for k in c if k in self.cols or name == "reindex"}, self.index)
        if name == "pop":
            s = self.item(ev, args[0])
            del self.cols[args[0]]
            return s
        if name == "get":
            return self.col(args[0]) if args[0] in self.cols else (args[1] if len(args) > 1 else None)
        if name in ("isna", "isnull", "notna", "notnull"):
            return DF({k: [(x is NAN) == name.startswith("is") for x in v] for k, v in self.cols.items()}, self.index)
        if name in ("any", "all") and kw.get("axis", args[0] if args else 0) in (0, "index"):
            q = any if name == "any" else all
            return Ser([q(v) for v in self.cols.values()], Idx([(k,) for k in self.cols]))
        if name == "squeeze":
            if self.n() == 1 and len(self.cols) == 1:
                return next(iter(self.cols.values()))[0]
            if self.n() == 1:
                return self.row(0)
            if len(self.cols) == 1:
                return self.col(next(iter(self.cols)))
            return self
        if name == "apply" and kw.get("axis", 0) in (0, "index") and len(args) == 1:
            res = {k: ev.apply(args[0], [self.col(k)], {}, ev.node, env) for k in self.cols}
            if all(isinstance(v, Ser) for v in res.values()):
                return DF({k: v.vals for k, v in res.items()}, self.index)
            return Ser(res.values(), Idx([(k,) for k in res]))
        if name == "groupby":
            lv = kw.get("level")
            if lv is not None:
                i = self.index.lev(lv)
                out = []
                for x in uniq(r[i] for r in self.index.rows):
                    out.append(tup([x, self.take([j for j, r in enumerate(self.index.rows) if same(r[i], x)])]))
                return vn.IterV(out)
        if name == "memory_usage":
            return sym("memory")
        return NotImplemented


# ---------------------------------------------------------------- constructors
def frame(ev, a, k):
    b = bind(a, k, "data", "index", "columns", "dtype", "copy")
    d, ix = b.get("data"), b.get("index")
    if isinstance(d, vn.Seq) and d.kind == "tuple":
        return ev.unknown("DataFrame of a tuple")
    if ix is not None:
        ix = to_idx(ev, ix)
        if ix is None:
            return ev.unknown("index of a DataFrame")
    r = None
    if isinstance(d, DF):
        r = DF(d.cols, d.index)
        if ix is not None:
            pos = [d.index.find(l)[0] for l in ix.labels()]
            r = DF({c: [v[p[0]] if p else NAN for p in pos] for c, v in d.cols.items()}, ix)
    elif isinstance(d, Ser):
        r = DF({d.name if d.name is not None else 0: d.vals}, d.index)
    elif d is None:
        r = DF({}, ix if ix is not None else Idx([]))
    elif isinstance(d, vn.DictV):
        vals = dict(d.d)
        n = None if ix is None else len(ix.rows)
        cols, sx = {}, None
        for c, v in vals.items():
            if isinstance(v, Ser):
                sx = sx or v.index
        if ix is None and sx is not None:
            ix, n = sx, len(sx.rows)
        for c, v in vals.items():
            if isinstance(v, Ser):
                m = {label(l): x for l, x in zip(v.index.labels(), v.vals)}
                cols[c] = [m.get(label(l), NAN) for l in ix.labels()]
            elif isinstance(v, vn.DictV):
                if ix is None:
                    ix = Idx([(x,) for x in v.d])
                cols[c] = [v.d.get(l, NAN) if isinstance(l, (str, int)) else NAN for l in ix.labels()]
            elif isinstance(v, (vn.Seq, vn.IterV, Arr, Idx)) or isinstance(v, vn.Range):
                xs = listed(ev, v)
                if xs is None:
                    return ev.unknown("column of a DataFrame")
                if n is None:
                    n = len(xs)
                if len(xs) != n:
                    raise vn.PyRaise("ValueError")
                cols[c] = xs
            elif isinstance(v, (vn.Unknown, vn.Ite, vn.Cond)):
                return ev.unknown("column of a DataFrame")
            else:
                cols[c] = v
        if n is None and not cols:
            n = 0
        if n is None:
            raise vn.PyRaise("ValueError")
        if ix is None:
            ix = Idx([(i,) for i in range(n)])
        r = DF({c: v if isinstance(v, list) else [v] * n for c, v in cols.items()}, ix)
    else:
        xs = listed(ev, d)
        if xs is None or not xs:
            return ev.unknown("data of a DataFrame")
        if ix is None:
            ix = Idx([(x.name if isinstance(x, Ser) and x.name is not None else i,) for i, x in enumerate(xs)])
        if len(ix.rows) != len(xs):
            raise vn.PyRaise("ValueError")
        if all(isinstance(x, Ser) for x in xs):
            rows = [dict(zip(x.index.labels(), x.vals)) for x in xs]
        elif all(isinstance(x, vn.DictV) for x in xs):
            rows = [dict(x.d) for x in xs]
        elif b.get("columns") is not None:
            cs = listed(ev, b["columns"])
            rows = [dict(zip(cs, listed(ev, x) if isinstance(x, (vn.Seq, Arr)) else [x])) for x in xs]
        else:
            return ev.unknown("data of a DataFrame")
        cs = list(dict.fromkeys(c for x in rows for c in x))
        r = DF({c: [x.get(c, NAN) for x in rows] for c in cs}, ix)
    if b.get("columns") is not None and isinstance(d, (DF, vn.DictV)):
        cs = listed(ev, b["columns"])
        r = DF({c: r.cols.get(c, [NAN] * r.n()) for c in cs}, r.index)
    if b.get("dtype") is not None:
        r = DF({c: astype(ev, b["dtype"], v) for c, v in r.cols.items()}, r.index)
    return r


def series(ev, a, k):
    b = bind(a, k, "data", "index", "dtype", "name", "copy")
    d, ix = b.get("data"), b.get("index")
    ix = None if ix is None else to_idx(ev, ix)
    if isinstance(d, vn.DictV):
        r = Ser(d.d.values(), Idx([(x,) for x in d.d]), b.get("name"))
        if ix is not None:
            r = Ser([d.d.get(l, NAN) for l in ix.labels()], ix, b.get("name"))
    elif isinstance(d, Ser):
        r = Ser(d.vals, ix or d.index, b.get("name", d.name))
    else:
        xs = listed(ev, d)
        if xs is None:
            if ix is None:
                return ev.unknown("Series")
            xs = [d] * len(ix.rows)
        if ix is not None and len(ix.rows) != len(xs):
            raise vn.PyRaise("ValueError")
        r = Ser(xs, ix or Idx([(i,) for i in range(len(xs))]), b.get("name"))
    if b.get("dtype") is not None:
        r = Ser(astype(ev, b["dtype"], r.vals), r.index, r.name)
    return r


def from_product(ev, a, k):
    b = bind(a, k, "iterables", "sortorder", "names")
    its = [listed(ev, x) if not isinstance(x, vn.Range) else ev.concrete(x) for x in ev.concrete(b["iterables"])]
    if any(x is None for x in its):
        return ev.unknown("MultiIndex.from_product")
    rows = [()]
    for x in its:
        rows = [r + (y,) for r in rows for y in x]
    n = b.get("names")
    return Idx(rows, [None] * len(its) if n is None else list(ev.concrete(n))) if rows else Idx([], list(ev.concrete(n)))


def from_tuples(ev, a, k):
    b = bind(a, k, "tuples", "sortorder", "names")
    xs = [ev.concrete(x) for x in ev.concrete(b["tuples"])]
    n = b.get("names")
    return Idx([tuple(x) for x in xs], None if n is None else list(ev.concrete(n)))


def from_arrays(ev, a, k):
    b = bind(a, k, "arrays", "sortorder", "names")
    xs = [listed(ev, x) for x in ev.concrete(b["arrays"])]
    n = b.get("names")
    return Idx(list(zip(*xs)), None if n is None else list(ev.concrete(n)))


def concat(ev, a, k):
    b = bind(a, k, "objs", "axis", "join", "ignore_index", "keys", "levels", "names")
    o = b["objs"]
    keys = b.get("keys")
    if isinstance(o, vn.DictV):
        keys = vn.Seq(list(o.d), "list") if keys is None else keys
        o = vn.Seq(list(o.d.values()), "list")
    xs = listed(ev, o)
    if xs is None:
        return ev.unknown("objects of pd.concat")
    drop = [i for i, x in enumerate(xs) if x is None]
    ks = None if keys is None else listed(ev, keys)
    if ks is not None:
        ks = [x for i, x in enumerate(ks) if i not in drop]
    xs = [x for x in xs if x is not None]
    if not xs:
        raise vn.PyRaise("ValueError")
    if not all(isinstance(x, (DF, Ser)) for x in xs):
        return ev.unknown("objects of pd.concat")
    names = None if b.get("names") is None else listed(ev, b["names"])
    if b.get("axis", 0) in (1, "columns"):
        xs = [DF({x.name if x.name is not None else i: x.vals}, x.index) if isinstance(x, Ser) else x for i, x in enumerate(xs)]
        rows = {}
        for x in xs:
            for r in x.index.rows:
                rows.setdefault(tuple(map(label, r)), r)
        ix = Idx(list(rows.values()), xs[0].index.names)
        cols = {}
        for i, x in enumerate(xs):
            pos = {tuple(map(label, r)): j for j, r in enumerate(x.index.rows)}
            for c, v in x.cols.items():
                c = c if ks is None else vn.key(tup([ks[i], c]))
                if c in cols:
                    return ev.unknown("duplicate columns in pd.concat")
                cols[c] = [v[pos[r]] if r in pos else NAN for r in rows]
        return DF(cols, ix)
    if all(isinstance(x, Ser) for x in xs):
        r = Ser([v for x in xs for v in x.vals], Idx([(*(() if ks is None else (ks[i],)), *q) for i, x in enumerate(xs) for q in x.index.rows],
                ([None] if ks is not None else []) + xs[0].index.names))
    else:
        if any(isinstance(x, Ser) for x in xs):
            return ev.unknown("mixed objects in pd.concat")
        cs = list(dict.fromkeys(c for x in xs for c in x.cols))
        nm = xs[0].index.names
        if any(x.index.nl != xs[0].index.nl for x in xs):
            return ev.unknown("different indexes in pd.concat")
        nm = [n if all(x.index.names[i] == n for x in xs) else None for i, n in enumerate(nm)]
        rows = [(*(() if ks is None else (ks[i],)), *q) for i, x in enumerate(xs) for q in x.index.rows]
        r = DF({c: [v for x in xs for v in (x.cols[c] if c in x.cols else [NAN] * x.n())] for c in cs}, Idx(rows, ([None] if ks is not None else []) + nm))
    if b.get("ignore_index") is True:
        r.index = Idx([(i,) for i in range(len(r.index.rows))])
    elif names is not None and ks is not None:
        r.index = Idx(r.index.rows, names + r.index.names[len(names):] if len(names) < r.index.nl else names)
    return r


LITERAL = (str, int, float, bool)


def literal(ev, v):
    """is str(v) a python literal that evaluates to v again? (numbers are left symbolic)"""
    if v is None or isinstance(v, LITERAL) or vn.isnum(v):
        return True
    if isinstance(v, vn.Seq) and v.kind in ("list", "tuple", "set"):
        return all(literal(ev, x) for x in v.items)
    if isinstance(v, vn.DictV):
        return all(literal(ev, x) for x in v.d.values()) and not any(k.startswith("sympy[") for k in v.d if isinstance(k, str))
    return False


def literal_eval(ev, a, k):
    v = a[0]
    if isinstance(v, StrOf):
        if literal(ev, v.v):
            return ev.deep(v.v)
        raise vn.PyRaise("ValueError")
    if isinstance(v, str):
        try:
            c = ast.literal_eval(v)
        except (ValueError, SyntaxError):
            raise vn.PyRaise("ValueError")
        return ev.of_const(c)
    if v is None or v is NAN:
        raise vn.PyRaise("ValueError")
    return ev.unknown("literal_eval")


class PD:
    """the constructors for `ext`"""
    EXT = {
        "pandas.DataFrame": frame, "pandas.Series": series, "pandas.concat": concat, "ast.literal_eval": literal_eval,
        "pandas.MultiIndex.from_product": from_product, "pandas.MultiIndex.from_tuples": from_tuples, "pandas.MultiIndex.from_arrays": from_arrays,
        "pandas.Index": lambda ev, a, k: Idx(to_idx(ev, a[0]).rows, [k["name"]]) if "name" in k else to_idx(ev, a[0]),
        "pandas.isna": lambda ev, a, k: a[0] is NAN if not isinstance(a[0], (DF, Ser)) else ev.unknown("isna"),
        "pandas.isnull": lambda ev, a, k: a[0] is NAN if not isinstance(a[0], (DF, Ser)) else ev.unknown("isna"),
    }
