"""P15: a restarted run processes exactly the missing features, each under a number of its own"""
import ast
import itertools

from rtsa import alg, vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken, unparse
from rtsa.report import Report

from .pipeline import last
from .resources import own

N = 3


class Stored(vn.ModelObj):
    """the IDs / numbers found in the file (any container made of them)"""

    def __init__(self, what):
        self.what = what

    def key(self):
        return f"<stored {self.what}>"

    def attr(self, ev, name, env):
        if self.what == "frame":
            return Stored("nums") if name == "index" else Stored("ids") if name == "ID" else NotImplemented
        if name in ("values", "array", "ID", "index"):
            return self
        return NotImplemented

    def item(self, ev, idx):
        if self.what == "frame" and idx == "ID":
            return Stored("ids")
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("tolist", "to_list", "to_numpy", "unique", "copy", "keys", "astype", "drop_duplicates", "to_frame"):
            return Stored("nums") if self.what == "frame" and name == "keys" else self
        if self.what == "nums" and name == "max":
            return sym("$M")
        if name == "__len__":
            return sym(f"$len_{self.what}")
        return NotImplemented

    def contains(self, ev, x):
        if self.what == "ids":
            return ev.member(x)
        if any(f"$id{i}" in vn.key(x) for i in range(N)):
            ev.bad.append(f"the IDs are not looked up among the stored IDs ({self.key()})")
            return False
        return None


class Mask(vn.ModelObj):
    """the IDs of the requested features as index / array"""

    def __init__(self, items):
        self.items = items

    def key(self):
        return f"<ids {[vn.key(i) for i in self.items]}>"

    def iter(self, ev):
        return list(self.items)

    def attr(self, ev, name, env):
        return self if name in ("values", "array") else NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "isin":
            if not (isinstance(args[0], Stored) and args[0].what == "ids"):
                ev.bad.append(f"the IDs are not looked up among the stored IDs ({vn.key(args[0])[:60]})")
                return vn.Seq([False] * len(self.items), "ndarray")
            return vn.Seq([ev.member(i) for i in self.items], "ndarray")
        if name in ("tolist", "to_list", "to_numpy", "astype", "copy"):
            return self
        return NotImplemented


class Db(vn.ModelObj):
    def __init__(self, path):
        self.path = path

    def key(self):
        return "<fit_db>"

    def attr(self, ev, name, env):
        return Stored("frame") if name == "IDs" else self if name == "store" else NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "select_column" and args[:1] == ["reader_arg"] and len(args) == 2:
            return Stored({"ID": "ids", "index": "nums"}.get(args[1], "other"))
        return NotImplemented


class Restart(vn.Evaluator):
    """abstract run of the selection: N requested features with symbolic arguments; which of them are stored is fixed per scenario"""

    def __init__(self, P, exists, stored, custom):
        super().__init__(P)
        self.exists, self.stored, self.bad, self.used = exists, stored, [], set()
        self.exact_try = True
        for d in ("os.path.exists", "os.path.isfile"):
            self.ext[d] = lambda ev, a, k: ev.exists
        for m in (".exists", ".is_file"):
            self.ext[m] = lambda ev, v, a, k: ev.exists
        for d in ("pandas.Index", "pandas.Series", "numpy.array", "numpy.asarray"):
            self.ext[d] = self.mkmask
        self.ext["numpy.isin"] = self.ext["numpy.in1d"] = self.isin
        for d in ("set", "list", "tuple", "frozenset", "sorted"):
            self.ext["builtins." + d] = lambda ev, a, k, d=d: a[0] if a and isinstance(a[0], (Stored, Mask)) else ev.ext_plain("builtins." + d, a, k)
        self.ext["builtins.len"] = lambda ev, a, k: sym(f"$len_{a[0].what}") if isinstance(a[0], Stored) else ev.ext_plain("builtins.len", a, k)
        self.ext["builtins.max"] = lambda ev, a, k: sym("$M") if isinstance(a[0], Stored) and a[0].what == "nums" else ev.ext_plain("builtins.max", a, k)
        self.ext["itertools.count"] = self.count
        self.opaque = {"general_functions.find_missing": self.find_missing}
        self.args = [vn.DictV({"ID": sym(f"$id{i}"), "path": sym(f"$path{i}")}) for i in range(N)]
        self.custom = custom

    def fact(self, text):
        if ".exists" in text or "m:exists" in text:
            return self.exists
        return super().fact(text)

    @staticmethod
    def mkmask(ev, a, k):
        if a and isinstance(a[0], Stored):
            return a[0]
        c = ev.concrete(a[0]) if a else None
        return Mask(c) if c is not None else ev.ext_plain("pandas.Index", a, k)

    @staticmethod
    def isin(ev, a, k):
        c = ev.concrete(a[0])
        if c is None or not (isinstance(a[1], Stored) and a[1].what == "ids"):
            return ev.unknown("isin")
        return vn.Seq([ev.member(i) for i in c], "ndarray")

    def member(self, x):
        """is this ID one of those in the file: decided by the feature it belongs to"""
        k = vn.key(x)
        hit = [i for i in range(N) if f"$id{i}" in k]
        if len(hit) != 1:
            return self.unknown(f"membership of {k[:60]}").why and None
        if self.custom and "$get_ID" not in k:
            self.bad.append("the ID is not determined with the provided function")
        self.used.add(hit[0])
        return hit[0] in self.stored

    @staticmethod
    def find_missing(ev, selfv, bound, extra):
        a = bound.get("lst")
        if not (isinstance(a, Stored) and a.what == "nums"):
            ev.bad.append(f"numbers are chosen without looking at the stored ones ({vn.key(a)[:60]})")
        n = bound.get("N")
        it = [sym(f"$m{i}") for i in range(12)]
        return vn.IterV(it)

    @staticmethod
    def count(ev, a, k):
        a = a or [0]
        base = alg.rat(0) if not vn.isnum(a[0]) else vn.asrat(a[0])
        if ev.exists:
            d = (base - sym("$M")).const()
            if d is None or d < 1:
                ev.bad.append(f"a number that is already stored can be assigned again (numbers start at {vn.key(a[0])})")
        return vn.IterV([base + i for i in range(12)])

    def apply(self, f, args, kw, node, env):
        if isinstance(f, vn.ClassV) and f.cls.name == "HDFaccessor":
            return Db(args[0] if args else kw.get("path"))
        if isinstance(f, vn.Rat) and f.key() == "$get_ID":
            d = args[0]
            i = [i for i in range(N) if isinstance(d, vn.DictV) and vn.key(d.d.get("ID")) == f"$id{i}"]
            return alg.call("$get_ID", [sym(f"$id{i[0]}")]) if i else self.unknown("ID function called with something else")
        return super().apply(f, args, kw, node, env)


def select(P, rep, qual, cls, getp, inarg, exists, stored, custom):
    f = P.find_method(cls, qual)
    ev = Restart(P, exists, stored, custom)
    where = f"{f.file}:{f.qual}"
    key = f"{qual}:{'exists' if exists else 'new'}:{''.join(map(str, sorted(stored))) or '-'}:{'custom' if custom else 'default'}"
    kw = {"get_ID": sym("$get_ID") if custom else None}
    heap = {}
    arglist = vn.Seq(ev.args)
    if inarg:
        kw["arg_list"] = arglist
        kw["key"] = "reader_arg"
    else:
        heap[("self", "arg_list")] = arglist
    try:
        ret, heap = ev.run(f, kw=kw, selfv=vn.Obj("self", cls), heap=heap)
    except vn.PyRaise as e:
        rep.bad(key, f"raises {e.kind}", where)
        return
    out = ret if inarg else heap.get(("self", "args_to_process"))
    rep.analysed |= ev.visited
    want = [i for i in range(N) if not (exists and i in stored)]
    items = ev.concrete(out) if not vn.is_unknown(out) and out is not None else None
    if items is None:
        if out is None:
            rep.bad(key, "nothing is selected", where)
        else:
            rep.undecided(key, f"selected features: {vn.key(out)[:200]} {ev.notes[:2]}", where)
        return
    got, nums = [], []
    for x in items:
        if not isinstance(x, vn.DictV):
            rep.undecided(key, f"selected feature: {vn.key(x)[:200]}", where)
            return
        src = [i for i in range(N) if vn.key(x.d.get("ID")) == f"$id{i}" and vn.key(x.d.get("path")) == f"$path{i}"]
        if not src:
            rep.bad(key, f"the reader arguments {vn.key(x)[:150]} are not those of a requested feature", where)
            return
        got.append(src[0])
        if set(x.d) - {"ID", "path", "_RT1_ID_num"}:
            rep.bad(key, f"additional reader arguments {sorted(set(x.d))}", where)
        nums.append(vn.key(x.d["_RT1_ID_num"]) if "_RT1_ID_num" in x.d else None)
    rep.check(sorted(got) == want, key + ":features", f"stored: {sorted(stored) if exists else 'no file'}; selected features {got}, expected {want} (each once)", where)
    rep.check(None not in nums and len(set(nums)) == len(nums), key + ":numbers", f"every selected feature has a number of its own ({nums})", where)
    for b in sorted(set(ev.bad)):
        rep.bad(key + ":numbers", b, where)
    for i, a in enumerate(ev.args):
        rep.check(set(a.d) == {"ID", "path"}, key + ":input", "the passed reader arguments are not changed", where)


# --------------------------------------------------------------------------- find_missing
class Piece(vn.ModelObj):
    """set / sequence of integers in [lo, hi) (hi None: endless), possibly without the members of the given list"""

    def __init__(self, lo, hi, without=False, whole=False):
        self.lo, self.hi, self.without, self.whole = lo, hi, without, whole

    def key(self):
        return f"<{'list' if self.whole else 'ints'} {self.lo} {self.hi} {self.without}>"

    def binop(self, ev, op, other, swapped):
        if isinstance(op, ast.Sub) and isinstance(other, Piece) and other.whole and not swapped:
            return Piece(self.lo, self.hi, True)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "difference" and len(args) == 1 and isinstance(args[0], Piece) and args[0].whole:
            return Piece(self.lo, self.hi, True)
        if name in ("tolist", "copy", "unique") and not args:
            return self
        if name == "max" and self.whole:
            return sym("$M")
        if name == "min" and self.whole:
            return sym("$m")
        return NotImplemented


class Missing(vn.Evaluator):
    def __init__(self, P, empty, n):
        super().__init__(P)
        self.empty, self.n, self.exact_try = empty, n, True
        for d in ("set", "list", "tuple", "frozenset", "sorted", "iter"):
            self.ext["builtins." + d] = lambda ev, a, k, d=d: a[0] if a and isinstance(a[0], (Piece, vn.Seq)) else ev.ext_plain("builtins." + d, a, k)
        self.ext["numpy.unique"] = self.ext["builtins.sorted"]
        self.ext["builtins.len"] = lambda ev, a, k: (0 if ev.empty else sym("$len")) if isinstance(a[0], Piece) else ev.ext_plain("builtins.len", a, k)
        self.ext["builtins.max"] = self.mx
        self.ext["numpy.max"] = self.mx
        self.ext["builtins.range"] = self.rng
        self.ext["numpy.arange"] = self.rng
        self.ext["itertools.count"] = lambda ev, a, k: Piece(vn.asrat(a[0]) if a else alg.rat(0), None)
        self.ext["itertools.chain"] = lambda ev, a, k: vn.Seq([("chain", list(a))], "chain")
        self.ext["itertools.islice"] = lambda ev, a, k: vn.Seq([("islice", a[0], a[1])], "chain")

    @staticmethod
    def mx(ev, a, k):
        if isinstance(a[0], Piece) and a[0].whole:
            if ev.empty:
                if "default" in k:
                    return k["default"]
                raise vn.PyRaise("ValueError")
            return sym("$M")
        return ev.ext_plain("builtins.max", a, k)

    @staticmethod
    def rng(ev, a, k):
        a = [vn.asrat(x) for x in a]
        return Piece(alg.rat(0) if len(a) == 1 else a[0], a[-1] if len(a) == 1 else a[1])

    def fact(self, text):
        if text in ("$len<=0", "0==$len", "$len==0"):
            return self.empty
        if text == "0<$len" or text == "1<=$len":
            return not self.empty
        return super().fact(text)

    def truth(self, v, node):
        if isinstance(v, Piece) and v.whole:
            return not self.empty
        if isinstance(v, vn.Rat) and v.key() == "$len":
            return not self.empty
        return super().truth(v, node)

    def comp(self, e, env, elt):
        """(i for i in <ints> if i not in <list>)"""
        g = e.generators
        if len(g) == 1 and len(g[0].ifs) == 1 and isinstance(g[0].target, ast.Name) and isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) \
                and isinstance(e.elt, ast.Name) and e.elt.id == g[0].target.id:
            it = self.ev(g[0].iter, env)
            t = g[0].ifs[0]
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
                notin = isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In)
            else:
                notin = isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn)
            if isinstance(it, Piece) and notin and isinstance(t.left, ast.Name) and t.left.id == g[0].target.id:
                o = self.ev(t.comparators[0], env)
                if isinstance(o, Piece) and o.whole:
                    return Piece(it.lo, it.hi, True)
        return super().comp(e, env, elt)


def pieces(v):
    if isinstance(v, Piece):
        return [v]
    if isinstance(v, vn.Seq) and v.kind == "chain":
        t = v.items[0]
        if t[0] == "islice":
            return pieces(t[1])
        out = []
        for x in t[1]:
            p = pieces(x)
            if p is None:
                return None
            out += p
        return out
    if isinstance(v, vn.Seq) and not v.items:
        return []
    return None


def numbers(P, rep):
    f = P.func("general_functions.find_missing")
    where = f"{f.file}:{f.qual}"
    for empty, n in itertools.product((True, False), (None, 5)):
        ev = Missing(P, empty, n)
        key = f"find_missing:{'empty' if empty else 'list'}:{n}"
        try:
            ret, _ = ev.run(f, kw={"lst": Piece(sym("$m"), sym("$M") + 1, False, True), "N": n})
        except vn.PyRaise as e:
            rep.bad(key, f"raises {e.kind}", where)
            continue
        rep.analysed |= ev.visited
        ps = pieces(ret)
        if ps is None:
            rep.undecided(key, f"result {vn.key(ret)[:200]} {ev.notes[:2]}", where)
            continue
        rep.check(any(p.hi is None for p in ps) if ps else False, key + ":endless", "there is always another number", where)
        for i, p in enumerate(ps):
            if not empty:
                d = (vn.asrat(p.lo) - sym("$M")).const()
                rep.check(p.without or d is not None and d >= 1, key + f":fresh{i}", f"the numbers {p.key()} do not include one of the list", where)
            for q in ps[:i]:
                a, b = (q, p) if q.hi is not None else (p, q)
                d = None if a.hi is None else (vn.asrat(b.lo) - vn.asrat(a.hi)).const()
                rep.check(d is not None and d >= 0, key + f":unique{i}", f"{p.key()} and {q.key()} have no number in common", where)


# --------------------------------------------------------------------------- ID normalisation
def normal(P, f, selfv, arg, heapkey=None, opaque=None):
    ev = vn.Evaluator(P, opaque={"general_functions.isidentifier": "isidentifier", **(opaque or {})})
    ret, heap = ev.run(f, args=[arg], selfv=selfv)
    v = heap.get(heapkey) if heapkey is not None else ret
    return v, ev


def identifiers(P, rep):
    x = sym("$x")
    forms = {}
    F, R, H = P.cls("rtfits.Fits"), P.cls("rtprocess.RTprocess"), P.cls("rtresults.HDFaccessor")
    todo = [("Fits.ID", P.find_setter(F, "ID"), vn.Obj("self", F), ("self", "_ID"), {}),
            ("RTprocess._extract_ID", P.find_method(R, "_extract_ID"), vn.Obj("self", R), None, {}),
            ("HDFaccessor._get_ID", P.find_method(H, "_get_ID"), None, None, {})]
    for nm, f, selfv, hk, op in todo:
        if f is None:
            raise AnalysisBroken(f"{nm} vanished")
        v, ev = normal(P, f, selfv, x, hk, op)
        rep.analysed |= ev.visited
        k = vn.key(v)
        # the feature id of a reader_arg stands for x
        i = k.find("get_names_ids")
        if i >= 0:
            k = strip_feature(k)
        forms[nm] = (k, f)
    ref = forms["HDFaccessor._get_ID"][0]
    for nm, (k, f) in forms.items():
        where = f"{f.file}:{f.qual}"
        if "?<" in k:
            rep.undecided(f"identifier:{nm}", k[:300], where)
        else:
            rep.check(k == ref, f"identifier:{nm}", f"IDs are turned into identifiers in the same way everywhere ({k[:160]} / stored: {ref[:160]})", where)
    f = P.func("general_functions.isidentifier")
    for ok, kw in itertools.product((True, False), repeat=2):
        ev = vn.Evaluator(P, facts=lambda t, ok=ok, kw=kw: True if t.startswith("isinstance(") else ok if t in ("m:isidentifier($x)", "str.isidentifier($x)", "ext:str.isidentifier($x)")
                          else kw if "iskeyword($x)" in t and t.startswith(("ext:", "keyword", "iskeyword", "m:")) else None)
        ev.ext["builtins.isinstance"] = lambda e, a, k: True
        ev.ext[".isidentifier"] = lambda e, v, a, k, ok=ok: ok
        ev.ext["builtins.str.isidentifier"] = lambda e, a, k, ok=ok: ok
        ev.ext["keyword.iskeyword"] = lambda e, a, k, kw=kw: kw
        r, _ = ev.run(f, args=[x])
        r = ev.truth(r, None)
        rep.check((r == (ok and not kw)) if isinstance(r, bool) else None, f"isidentifier:{ok}:{kw}", "a name is usable if it is an identifier and no keyword", f"{f.file}:{f.qual}")
    k = ref
    rep.check("isidentifier" in k and "RT1_" in k, "identifier:form", f"IDs that are no valid identifier get the prefix RT1_ ({k[:160]})", "rt1/rtresults.py:HDFaccessor._get_ID")


def strip_feature(k):
    """replace the term of  get_names_ids($x)["feature_id"]  by $x"""
    import re
    pat = [m.start() for m in re.finditer(r"[\w:\.]*get_names_ids", k)]
    for start in reversed(pat):
        # enclosing term: the item access around the call
        best = None
        for s in range(start, -1, -1):
            if s and (k[s - 1].isalnum() or k[s - 1] in "_:.$"):
                continue
            m = re.match(r"[\w:\.\$]*[\(\[]", k[s:])
            if not m:
                continue
            depth, i = 0, s + m.end() - 1
            while i < len(k):
                if k[i] in "([{":
                    depth += 1
                elif k[i] in ")]}":
                    depth -= 1
                    if depth == 0:
                        break
                i += 1
            term = k[s:i + 1]
            tail = re.match(r"\['feature_id'\]|\[feature_id\]", k[i + 1:])
            if tail:
                best = (s, i + 1 + tail.end())
                break
            if "feature_id" in term and "get_names_ids" in term and "$x" in term and s <= start:
                best = (s, i + 1)
                break
        if best:
            k = k[:best[0]] + "$x" + k[best[1]:]
    return k


# --------------------------------------------------------------------------- hand-over to the pool
def handover(P, rep):
    W = P.cls("_rtprocess_writer.RT1_processor")
    f = P.find_method(W, "run_starmap")
    if f is None:
        raise AnalysisBroken("run_starmap vanished")
    seen = 0
    for g in [m for m in P.all_functions() if m.cls is not None and m.cls.node is W.node]:
        defs = {}
        for n in own(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)

        def expand(e, depth=0):
            """the expressions an argument is made of"""
            out = [e]
            if isinstance(e, ast.Name) and depth < 5:
                for v in defs.get(e.id, []):
                    out += expand(v, depth + 1)
            else:
                for c in ast.iter_child_nodes(e):
                    out += expand(c, depth)
            return out
        for n in own(g.node):
            if not (isinstance(n, ast.Call) and last(n.func) in ("starmap_async", "starmap", "map", "map_async", "imap", "imap_unordered") and isinstance(n.func, ast.Attribute)
                    and any(isinstance(x, ast.Attribute) and x.attr == "_worker_process" for a in n.args for x in ast.walk(a))):
                continue
            seen += 1
            where = f"{g.file}:{n.lineno}"
            ex = [x for a in n.args[1:] + [k.value for k in n.keywords] for x in expand(a)]
            txt = [unparse(x) for x in ex if isinstance(x, ast.Attribute)]
            rep.check("self.args_to_process" in txt, "pool:selected", "the selected features (args_to_process) are handed to the pool", where)
            rep.check("self.arg_list" not in txt, "pool:only", "features that are already stored are not handed to the pool", where)
            cut = [x for x in ex if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and "args_to_process" in "".join(unparse(y) for y in expand(x.value))
                   and not whole(x.slice)]
            flt = [x for x in ex if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and any(c.ifs for c in x.generators)]
            isl = [x for x in ex if isinstance(x, ast.Call) and last(x.func) in ("islice", "takewhile", "dropwhile", "filter")]
            rep.check(not cut and not flt and not isl, "pool:all",
                      "all selected features are handed to the pool (" + ", ".join(unparse(x)[:60] for x in cut + flt + isl) + ")", where)
            reps = [x for x in ex if isinstance(x, ast.Call) and last(x.func) in ("chain", "cycle", "repeat") and "args_to_process" in unparse(x)]
            rep.check(not reps and sum(t == "self.args_to_process" for t in txt) <= 1 or any(isinstance(x, ast.Call) and last(x.func) == "len" for x in ex), "pool:once",
                      "every selected feature is handed over once", where)
            if any(isinstance(x, ast.Call) and last(x.func) == "zip" for x in ex):
                rep.assume("additional starmap_args are at least as long as the list of features (they are repeated iterators)")
    rep.check(seen == 1 if seen else None, "pool:calls", f"one dispatch of the worker function ({seen})", f"{f.file}:{f.qual}")
    # the selection happens before the dispatch
    calls = [n for n in own(f.node) if isinstance(n, ast.Call) and last(n.func) == "_check_IDs"]
    rep.check(bool(calls) or any(isinstance(n, ast.Call) and last(n.func) == "_check_IDs" for g in P.all_functions() if g.cls is not None and g.cls.node is W.node for n in own(g.node)),
              "pool:selection", "the stored IDs are looked up for every run", f"{f.file}:{f.qual}")
    for n in calls:
        a = list(n.args) + [k.value for k in n.keywords]
        rep.check(any("ID_getter" in resolve(f, x) for x in a), "pool:getter", "the provided ID function is used for the look-up", f"{f.file}:{n.lineno}")
    R = P.cls("rtprocess.RTprocess")
    for g in P.all_functions():
        if g.cls is None or g.cls.node is not R.node:
            continue
        for n in own(g.node):
            if isinstance(n, ast.Call) and last(n.func) == "run_starmap":
                k = {x.arg: x.value for x in n.keywords}
                rep.analysed.add(g.qual)
                names = [unparse(v) for v in k.values()]
                rep.check("ID_getter" in k and "_extract_ID" in resolve(g, k["ID_getter"]), f"getter:{g.name}",
                          "stored IDs are compared to the identifiers the features are stored with", f"{g.file}:{n.lineno}") if "_evalfunc" in " ".join(names) else None


def resolve(g, e):
    if isinstance(e, ast.Name):
        return e.id + " " + " ".join(unparse(n.value) for n in own(g.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets))
    return unparse(e)


def whole(s):
    return all(x is None or isinstance(x, ast.Constant) and x.value in (None, 0, 1) and (x is s.lower and x.value in (None, 0) or x is s.step and x.value in (None, 1))
               for x in (s.lower, s.upper, s.step))


def p_restart(P, tier):
    rep = Report("P15", tier, f"Abstract evaluation of the selection of missing features ({N} requested features with symbolic arguments, every subset of them already stored, with and without a "
                 "provided ID function), of the number generator (integer intervals over a symbolic maximum), of every function that makes an identifier out of an ID, and of the hand-over to the pool.")
    W, C = P.cls("_rtprocess_writer.RT1_processor"), P.cls("processing_config.rt1_processing_config")
    for cls, qual, inarg in ((W, "_check_IDs", False), (C, "mask_existing_HDF_IDs", True)):
        if P.find_method(cls, qual) is None:
            raise AnalysisBroken(f"{qual} vanished")
        for custom in (True, False):
            select(P, rep, qual, cls, "get_ID", inarg, False, set(), custom)
            for k in range(N + 1):
                for st in itertools.combinations(range(N), k):
                    select(P, rep, qual, cls, "get_ID", inarg, True, set(st), custom)
    numbers(P, rep)
    identifiers(P, rep)
    handover(P, rep)
    rep.minimum = 60
    return rep


CHECKS = {"P15": p_restart}
