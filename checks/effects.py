"""P17: stored results are only ever appended to;  P18: existing results are neither removed nor overwritten without confirmation"""
import ast

from rtsa import vn
from rtsa.alg import sym
from rtsa.model import AnalysisBroken, dotted, unparse
from rtsa.report import Report

from .resources import own


def funcs(P):
    if not hasattr(P, "_funcs"):
        P._funcs = P.all_functions()
    return P._funcs


class Thing(vn.ModelObj):
    """an object whose behaviour does not matter"""

    def __init__(self, name_="obj", **attrs):
        self.name, self.attrs = name_, attrs

    def key(self):
        return f"<{self.name}>"

    def attr(self, ev, name, env):
        if name in self.attrs:
            return self.attrs[name]
        return Thing(f"{self.name}.{name}")

    def call(self, ev, args, kw, env):
        return Thing(self.name + "()")

    def method(self, ev, name, args, kw, env):
        return Thing(f"{self.name}.{name}()")

    def item(self, ev, idx):
        return Thing(f"{self.name}[]")

    def setattr(self, ev, name, v, env):
        self.attrs[name] = v

    def setitem(self, ev, idx, v, env):
        return None

    def iter(self, ev):
        return []


class Kind(str):
    """exception class known under several names"""

    def __new__(cls, *names):
        o = super().__new__(cls, names[0])
        o.names = names
        return o

    def __eq__(self, o):
        return o in self.names

    def __hash__(self):
        return hash(self.names)


def bind(args, kw, *names):
    r = dict(zip(names, args))
    r.update({k: v for k, v in kw.items() if k in names})
    return r


# =========================================================================== P18
class Path_(vn.ModelObj):
    def __init__(self, parts):
        self.parts_ = tuple(p for p in parts if p not in ("", "."))

    def key(self):
        return "<path " + "/".join(self.parts_) + ">"

    @staticmethod
    def of(v):
        if isinstance(v, Path_):
            return v
        if isinstance(v, str):
            return Path_(v.split("/"))
        k = vn.key(v)
        if k.startswith("str(<path ") and k.endswith(">)"):
            return Path_(k[len("str(<path "):-2].split("/"))
        return None

    def binop(self, ev, op, other, swapped):
        o = Path_.of(other)
        if isinstance(op, ast.Div) and o is not None:
            return Path_(o.parts_ + self.parts_) if swapped else Path_(self.parts_ + o.parts_)
        return NotImplemented

    def compare(self, ev, op, other):
        o = Path_.of(other)
        if isinstance(other, Path_) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (o.parts_ == self.parts_) == isinstance(op, ast.Eq)
        return NotImplemented

    def attr(self, ev, name, env):
        last = self.parts_[-1] if self.parts_ else ""
        if name == "name":
            return last
        if name == "stem":
            return last.rpartition(".")[0] or last
        if name == "suffix":
            return "." + last.rpartition(".")[2] if "." in last else ""
        if name == "parent":
            return Path_(self.parts_[:-1])
        if name == "parts":
            return vn.Seq(list(self.parts_), "tuple")
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name in ("exists", "is_dir", "is_file"):
            return ev.exists(self, name)
        if name == "mkdir":
            ev.do("mkdir", self)
            ev.fs.add(self.parts_)
            return None
        if name in ("rmdir", "unlink"):
            ev.do("remove", self)
            return None
        if name in ("rename", "replace"):
            ev.do("move", self)
            return None
        if name in ("write_text", "write_bytes", "touch"):
            ev.do("touch" if name == "touch" else "write", self)
            return None
        if name == "open":
            return ev.open(self, *args, **kw)
        if name in ("joinpath",):
            ps = [Path_.of(a) for a in args]
            if all(p is not None for p in ps):
                return Path_(self.parts_ + tuple(x for p in ps for x in p.parts_))
        if name in ("resolve", "absolute", "expanduser"):
            return self
        if name in ("as_posix", "__str__", "__fspath__"):
            return "/".join(self.parts_)
        if name == "samefile":
            o = Path_.of(args[0])
            return o is not None and o.parts_ == self.parts_
        if name in ("iterdir", "glob", "rglob") and hasattr(ev, "listdir"):
            return ev.listdir(self, name, args)
        if name in ("iterdir", "glob", "rglob"):
            return vn.Seq([Path_(self.parts_ + ("file0",))] if self.parts_ in ev.fs else [])
        if name == "with_name" and isinstance(args[0], str):
            return Path_(self.parts_[:-1] + (args[0],))
        if name in ("with_suffix", "with_stem") and isinstance(args[0], str) and self.parts_:
            head, dot, tail = self.parts_[-1].rpartition(".")
            stem, suffix = (head, dot + tail) if head and tail else (self.parts_[-1], "")
            return Path_(self.parts_[:-1] + (stem + args[0] if name == "with_suffix" else args[0] + suffix,))
        return NotImplemented


class CfgFile(Thing):
    """parsed configuration: sections with string values"""

    def __init__(self, ev, path):
        super().__init__("cfg")
        self.path = path
        self.attrs = {"configpath": path, "config": ev.config}

    def attr(self, ev, name, env):
        if name in ("get_process_specs", "get_all_modules", "get_fitobject", "get_module"):
            return NotImplemented
        return super().attr(ev, name, env)

    def method(self, ev, name, args, kw, env):
        if name == "get_process_specs":
            return vn.DictV({"save_path": Path_(("save",)), "dumpfolder": "dump", "processing_cfg_module": "m", "processing_cfg_class": "c"})
        if name in ("get_all_modules", "get_fitobject", "get_module"):
            return Thing(name)
        return NotImplemented


class ConfigV(vn.DictV):
    pass


class Setup(vn.Evaluator):
    """abstract run of the preparation of a processing run on a file system of which only the paths in question are known"""

    def __init__(self, P, main, existing, answers, ini):
        super().__init__(P)
        self.exact_try = True
        self.main, self.fs, self.answers, self.events = main, set(existing), list(answers), []
        self.unsure = []
        self.config = vn.DictV({
            "CONFIGFILES": vn.DictV({"module__a": "src/a.py", "module__b": "src/b.py", "copy": "x"}),
            "PROCESS_SPECS": vn.DictV({"path__save_path": "save", "dumpfolder": "dump"}),
            "fits_kwargs": vn.DictV({"q": "1"}),
        })
        name = "MainProcess" if main else "worker-1"
        E = self.ext
        E["builtins.input"] = self.ask
        E["multiprocessing.current_process"] = lambda ev, a, k: Thing("proc", name=name, _config=Thing("c"))
        E["multiprocessing.parent_process"] = lambda ev, a, k: None if main else Thing("parent")
        for d in ("sys.exit", "builtins.exit", "builtins.quit", "os._exit"):
            E[d] = self.exit
        E["pathlib.Path"] = lambda ev, a, k: self.path(a)
        E["os.path.join"] = lambda ev, a, k: self.path(a)
        E["os.fspath"] = lambda ev, a, k: a[0]
        E["builtins.str"] = lambda ev, a, k: "/".join(a[0].parts_) if a and isinstance(a[0], Path_) else ev.ext_plain_str(a)
        for d in ("os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.lexists"):
            E[d] = lambda ev, a, k, d=d: ev.exists(Path_.of(a[0]), d)
        for d in ("os.mkdir", "os.makedirs"):
            E[d] = lambda ev, a, k: ev.mk(Path_.of(a[0]))
        for d in ("shutil.copy", "shutil.copyfile", "shutil.copy2"):
            E[d] = self.copy
        E["shutil.rmtree"] = lambda ev, a, k: ev.rm(a[0] if a else k.get("path"))
        for d in ("os.remove", "os.unlink", "os.rmdir", "os.removedirs"):
            E[d] = lambda ev, a, k: ev.do("remove", Path_.of(a[0]))
        for d in ("os.rename", "os.replace", "shutil.move", "os.renames"):
            E[d] = lambda ev, a, k: ev.do("move", Path_.of(a[0]))
        E["builtins.open"] = lambda ev, a, k: ev.open(*a, **k)
        E["io.open"] = E["builtins.open"]
        E["builtins.print"] = lambda ev, a, k: None
        E["builtins.hasattr"] = lambda ev, a, k: True
        E["builtins.getattr"] = lambda ev, a, k: Thing("attr") if isinstance(a[0], Thing) else ev.unknown("getattr")
        E["os.path.basename"] = lambda ev, a, k: Path_.of(a[0]).attr(ev, "name", None)
        E["os.path.dirname"] = lambda ev, a, k: Path_.of(a[0]).attr(ev, "parent", None)

    def ext_plain_str(self, a):
        if not a:
            return ""
        return a[0] if isinstance(a[0], str) else str(a[0]) if isinstance(a[0], (int, float)) else self.tostr(a[0])

    def wrap(self, r, env):
        if isinstance(r, tuple) and r[0] == "global" and r[2] == "log":
            return Thing("log", handlers=vn.Seq([Thing("h1", baseFilename="save/dump/cfg/x.log"), Thing("h2", baseFilename="other/x.log")]))
        return super().wrap(r, env)

    def path(self, a):
        ps = [Path_.of(x) for x in a]
        return Path_([x for p in ps for x in p.parts_]) if all(p is not None for p in ps) else self.unknown("path")

    def apply(self, f, args, kw, node, env):
        if isinstance(f, vn.ClassV) and f.cls.name == "RT1_configparser":
            p = args[0] if args else kw.get("configpath")
            return CfgFile(self, Path_.of(p) or Path_(("src", "cfg.ini")))
        return super().apply(f, args, kw, node, env)

    def truth(self, v, node):
        if isinstance(v, (Thing, Path_)):
            return True
        r = super().truth(v, node)
        if not isinstance(r, bool):
            self.unsure.append(unparse(node)[:80] if isinstance(node, ast.AST) else str(node))
        return r

    def exists(self, p, how):
        if p is None:
            return self.unknown("exists")
        if how in ("is_dir", "os.path.isdir") and "." in (p.parts_ or ("",))[-1]:
            return False
        if how in ("is_file", "os.path.isfile") and "." not in (p.parts_ or ("",))[-1]:
            return False
        return p.parts_ in self.fs

    def do(self, what, p, info=None):
        self.events.append((what, p.parts_ if p is not None else None, p is not None and p.parts_ in self.fs, info, len(self.unsure)))
        return None

    def mk(self, p):
        self.do("mkdir", p)
        if p is not None:
            self.fs.add(p.parts_)

    def rm(self, p):
        p = Path_.of(p)
        self.do("rmtree", p)
        if p is not None:
            self.fs = {x for x in self.fs if x[:len(p.parts_)] != p.parts_}

    @staticmethod
    def copy(ev, a, k):
        b = bind(a, k, "src", "dst")
        s, d = Path_.of(b.get("src")), Path_.of(b.get("dst"))
        if d is None or s is None:
            ev.do("copy", None)
            return None
        if "." not in d.parts_[-1]:
            d = Path_(d.parts_ + s.parts_[-1:])
        ev.do("copy", d, s.parts_)
        ev.fs.add(d.parts_)
        return d

    def open(self, file, mode="r", *a, **k):
        p = Path_.of(file)
        if not isinstance(mode, str):
            self.do("write", p, "?")
        elif mode.strip("bt") != "r":
            self.do("create" if "x" in mode else "extend" if "a" in mode else "write", p, mode)
            if p is not None:
                self.fs.add(p.parts_)
        return Thing("file")

    @staticmethod
    def ask(ev, a, k):
        ev.do("ask", Path_(()))
        if not ev.answers:
            raise vn.PyRaise("EOFError")
        return ev.answers.pop(0)

    @staticmethod
    def exit(ev, a, k):
        ev.do("exit", Path_(()))
        raise vn.PyRaise("SystemExit")

    def catches(self, h, exc):
        if exc.kind == "SystemExit" and h.type is not None:
            names = [n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))]
            return "SystemExit" in names or "BaseException" in names
        return super().catches(h, exc)


DUMP = ("save", "dump")
CFG = DUMP + ("cfg",)
FULL = [("save",), DUMP, DUMP + ("results",), DUMP + ("dumps",), CFG]
NEVER = ("remove", "move")


def scenarios(tier):
    """(name, main process, autocontinue, copy, init_kwargs given, existing paths, answers, outcome)"""
    files = [[], [CFG + ("cfg.ini",)], [CFG + ("a.py",)], [CFG + ("cfg.ini",), CFG + ("a.py",), CFG + ("b.py",)]]
    out = []
    for cp in (True, False):
        for ik in (False, True):
            tag = f"copy={cp},init_kwargs={'given' if ik else 'none'}"
            for i, fl in enumerate(files):
                out.append((f"worker,{tag},files{i}", False, False, cp, ik, FULL + fl, [], "quiet"))
                out.append((f"autocontinue,{tag},files{i}", True, True, cp, ik, FULL + fl, [], "continue"))
                for a in ("YES", "y", "Y"):
                    out.append((f"main,answer={a},{tag},files{i}", True, False, cp, ik, FULL + fl, [a, "REMOVE"], "continue"))
                for a in (["NO"], ["n"], ["x", "YES"], ["", "YES"], ["REMOVE", "NO"], ["REMOVE", "REMOVE"], ["remove", "x"], ["REMOVE", "", "Y"]):
                    out.append((f"main,answer={'+'.join(a)},{tag},files{i}", True, False, cp, ik, FULL + fl, a, "stop"))
                for a in (["REMOVE", "YES"], ["REMOVE", "y"], ["remove", "Y"]):
                    out.append((f"main,answer={'+'.join(a)},{tag},files{i}", True, False, cp, ik, FULL + fl, a, "remove"))
            out.append((f"worker,{tag},nothing there", False, False, cp, ik, [("save",)], [], "quiet"))
            out.append((f"main,{tag},nothing there", True, False, cp, ik, [("save",)], ["YES"], "new"))
            out.append((f"main,{tag},no save_path", True, False, cp, ik, [], ["YES"], "new"))
            out.append((f"autocontinue,{tag},nothing there", True, True, cp, ik, [("save",)], [], "new"))
            out.append((f"autocontinue,{tag},partly there", True, True, cp, ik, FULL[:3], [], "continue"))
    return out


def p_confirm(P, tier):
    rep = Report("P18", tier, "abstract run of the preparation of a processing run in every combination of process, options, existing paths and answers; recorded effects are compared with the permitted ones")
    cls = P.cls("RTprocess")
    f = P.find_method(cls, "setup")
    if f is None:
        raise AnalysisBroken("RTprocess.setup not found")
    where = f"{f.file}:{f.qual}"
    for name, main, auto, cp, ik, existing, answers, outcome in scenarios(tier):
        ev = Setup(P, main, existing, answers, ik)
        heap = {}
        for k, v in dict(config_path=Path_(("src", "cfg.ini")), autocontinue=auto, copy=cp, _proc_cls=Thing("proc_cls"), _parent_fit=Thing("fit"),
                         init_kwargs=vn.DictV({"fits_kwargs": vn.DictV({"q": "2"})} if ik else {}), cfg=Thing("cfg")).items():
            heap[("self", k)] = v
        raised = None
        try:
            _, heap = ev.run(f, selfv=vn.Obj("self", cls), heap=heap)
        except vn.PyRaise as e:
            raised = str(e.kind)
        rep.analysed |= ev.visited
        judge(rep, name, ev, outcome, cp, ik, existing, raised, where)
    scan_removals(P, rep)
    rep.assume("os / shutil / pathlib calls have their documented effect; the folder is not changed by someone else while the question is open")
    rep.assume("the processing class, the parent fit object and user modules do not touch the output folder")
    rep.minimum = 400
    return rep


class Soft:
    def __init__(self, rep, why):
        self.rep, self.why = rep, why

    def check(self, ok, key, text, where):
        self.rep.check(True if ok else None, key, text + self.why, where)

    def bad(self, key, text, where):
        self.rep.undecided(key, text + self.why, where)


def judge(rep, name, ev, outcome, cp, ik, existing, raised, where):
    evs = ev.events
    unsure = "" if not ev.unsure else f" (conditions left open: {ev.unsure[:2]})"

    def show(e):
        return f"{e[0]} {'/'.join(e[1]) if e[1] is not None else '?'}"

    log = "; ".join(show(e) for e in evs)[:220]
    for e in evs:
        if e[1] is None:
            rep.undecided(name + ":target", f"target of {e[0]} not known", where)
            return
    # --- forbidden effects
    for e in evs:
        if e[0] in NEVER:
            rep.bad(name + ":removal", f"{show(e)}: something is removed / moved", where)
        if e[0] == "rmtree":
            if outcome != "remove":
                rep.bad(name + ":removal", f"{show(e)} although removal was not requested and confirmed ({log})", where)
            elif e[1] != DUMP:
                rep.bad(name + ":removal", f"{show(e)}: not the folder that was confirmed", where)
        if e[0] in ("copy", "write") and e[2] and not (e[0] == "write" and ik and e[1] == CFG + ("cfg.ini",)):
            rep.bad(name + ":overwrite", f"{show(e)}: an existing file is overwritten", where)
        if e[0] in ("copy", "write", "create", "extend", "touch", "mkdir") and e[1][:2] != DUMP and e[1] != ("save",):
            rep.bad(name + ":outside", f"{show(e)}: outside of the output folder", where)
    asks = [i for i, e in enumerate(evs) if e[0] == "ask"]
    effects = [i for i, e in enumerate(evs) if e[0] not in ("ask", "exit")]
    if ev.unsure and outcome != "quiet":
        # obligations below can only be refuted by a run without open conditions
        rep = Soft(rep, unsure)
    if outcome == "quiet":
        rep.check(not evs, name, f"a worker process neither asks nor changes files ({log or 'no effect'})", where)
        return
    if outcome == "new":
        rep.check(not asks, name + ":ask", "no question if the folder does not exist", where)
    if outcome == "continue" and name.startswith("autocontinue"):
        rep.check(not asks, name + ":ask", "no question with autocontinue", where)
    if outcome in ("stop", "remove") or (outcome == "continue" and not name.startswith("autocontinue")):
        rep.check(bool(asks) and (not effects or asks[0] < effects[0]), name + ":ask", f"the question precedes every effect ({log or 'no effect'})", where)
        if outcome == "remove":
            rep.check(len(asks) == 2, name + ":twice", f"the removal is confirmed ({log})", where)
        else:
            n = 2 if "REMOVE+" in name.upper() else 1
            rep.check(len(asks) == n, name + ":asks", f"{len(asks)} question(s), {n} expected ({log})", where)
    if outcome == "stop":
        rep.check(raised == "SystemExit" and not effects, name + ":stop", f"anything but a confirmation stops without an effect ({log}; {raised or 'continues'})", where)
        return
    if raised is not None:
        rep.bad(name + ":continue", f"stops ({raised}; {log}){unsure}", where)
        return
    if outcome == "remove":
        rm = [e for e in evs if e[0] == "rmtree" and e[1] == DUMP]
        rep.check(len(rm) == 1 and (not effects or evs[effects[0]] is rm[0]), name + ":removed", f"the folder is removed before it is set up again ({log})", where)
    for d in ("results", "cfg", "dumps"):
        rep.check(DUMP + (d,) in ev.fs, name + ":" + d, f"the folder {d} is there afterwards", where)
    if cp:
        for d in ("cfg.ini", "a.py", "b.py"):
            p = CFG + (d,)
            n = [e for e in evs if e[1] == p]
            there = p in set(map(tuple, existing)) and outcome != "remove"
            if there and not (ik and d == "cfg.ini"):
                rep.check(not n, name + ":" + d, f"the existing {d} is kept ({log})", where)
            else:
                src = ("src", d)
                ok = len(n) == 1 and (n[0][0] == "copy" and n[0][3] == src and not (ik and d == "cfg.ini") or n[0][0] in ("write", "create") and ik and d == "cfg.ini")
                rep.check(ok, name + ":" + d, f"{d} is stored in the cfg folder once ({log})", where)


REMOVERS = {"shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename", "os.renames", "os.replace", "shutil.move", "os.truncate"}


def ext_name(P, m, node):
    """dotted name of the called function outside of the package"""
    d = dotted(node)
    if d is None:
        return None
    head, _, rest = d.partition(".")
    r = P.resolve(m, head)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1] + ("." + rest if rest else "")
    if r is None:
        return d
    return None


def scan_removals(P, rep):
    """every removal of files is reached from the preparation only, whose runs are covered by the scenarios"""
    fs = funcs(P)
    inside = reach_set(P, "setup")
    quals = {f.qual for f in inside}
    holders, n = {}, 0
    for f in fs:
        for c in own(f.node):
            if not isinstance(c, ast.Call):
                continue
            n += 1
            e = ext_name(P, f.module, c.func)
            at = c.func.attr if isinstance(c.func, ast.Attribute) else None
            if e in REMOVERS or (at in ("unlink", "rmdir", "removedirs") and not c.args) or at == "rmtree":
                holders.setdefault(f.qual, (f, c))
    rep.assume(f"{n} calls of the package inspected for file removals")
    lead = {q for q in holders if q in quals}
    grown = True
    while grown:
        grown = False
        for f in inside:
            if f.qual not in lead and f.name != "setup" and any(refers(f, x) for x in inside if x.qual in lead):
                lead.add(f.qual)
                grown = True
    for q, (f, c) in sorted(holders.items()):
        where = f"{f.file}:{c.lineno}"
        if q not in quals:
            used = [g.qual for g in fs if g.qual != q and refers(g, f)]
            rep.check(not used and f.name.startswith("_"), f"removal-site:{q}", f"{unparse(c)[:60]} removes files without a confirmed question", where)
        else:
            rep.ok(f"removal-site:{q}", "part of the preparation of a run", where)
    for f in inside:
        if f.qual in lead:
            stray = sorted({g.qual for g in fs if g.qual not in quals and refers(g, f)})
            rep.check(not stray, f"removal-use:{f.qual}", f"used by the preparation of a run only{' but also in ' + ', '.join(stray) if stray else ''}", f"{f.file}:{f.lineno}")
    if not holders:
        rep.check(None, "removal-sites", "no removal of the folder found", "rt1")


def refers(g, f):
    """is the function f mentioned in g"""
    return any((isinstance(n, ast.Attribute) and n.attr == f.name and f.cls is not None or isinstance(n, ast.Name) and n.id == f.name and f.cls is None)
               and isinstance(n.ctx, ast.Load) for n in own(g.node))


def reach_set(P, name):
    """functions referenced (called or passed on) from RTprocess.<name>"""
    start = P.find_method(P.cls("RTprocess"), name)
    out, todo = [], [start]
    seen = {start.qual}
    while todo:
        f = todo.pop()
        out.append(f)
        for n in own(f.node):
            t = None
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                t = P.find_method(P.cls("RTprocess"), n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = P.resolve(f.module, n.id)
                t = r if r.__class__.__name__ == "Func" else None
            if t is not None and t.qual not in seen:
                seen.add(t.qual)
                todo.append(t)
    return out


# =========================================================================== P17
READ = "r"
FORBIDDEN = {"put", "remove", "__setitem__", "__delitem__", "rename", "pop", "clear", "truncate", "remove_node", "rename_node", "move_node", "remove_rows", "modify_column", "modify_rows"}
HARMLESS = {"append", "append_to_multiple", "get_storer", "get_node", "keys", "groups", "walk", "items", "iteritems", "info", "select", "select_column", "select_as_coordinates",
            "get", "close", "flush", "create_table_index", "is_open", "root", "filename", "__contains__", "__iter__", "__len__", "select_as_multiple", "open", "__enter__", "__exit__",
            "create_index", "levels", "nrows", "table", "attrs", "__getitem__", "handle", "_handle", "_path", "_mode", "mode"}


def p_append(P, tier):
    rep = Report("P17", tier, "every handle on a result file is traced through the source: mode, methods used on it; abstract run of the writer on a queue with known tables")
    stores(P, rep)
    writer(P, rep)
    scan_removals(P, rep)
    rep.assume("HDFStore.append adds rows and keeps the existing ones (pandas)")
    rep.minimum = 15
    return rep


def stores(P, rep):
    nopen = 0
    for f in funcs(P):
        for c in own(f.node):
            if not isinstance(c, ast.Call):
                continue
            e = ext_name(P, f.module, c.func) or ""
            nm = e.split(".")[-1]
            where = f"{f.file}:{c.lineno}"
            if nm in ("to_hdf",) or isinstance(c.func, ast.Attribute) and c.func.attr == "to_hdf":
                ap = const_arg(P, f, c, None, "append")
                md = const_arg(P, f, c, 2, "mode", "a")
                rep.check(ap is True and md in ("a", "r+"), f"to_hdf:{f.qual}", "table written with to_hdf: appended to the existing one", where)
                continue
            if nm in ("open_file",) and e.startswith("tables") or e in ("h5py.File",):
                md = const_arg(P, f, c, 1, "mode", "r")
                rep.check(True if md == "r" else False if md in ("w",) else None, f"open:{f.qual}", f"file opened with mode {md!r}", where)
                continue
            if nm != "HDFStore":
                continue
            nopen += 1
            star = any(k.arg is None for k in c.keywords)
            md = const_arg(P, f, c, 1, "mode", "a")
            if md is None:
                rep.undecided(f"mode:{f.qual}", f"mode of {unparse(c)[:80]}", where)
            else:
                rep.check(md in ("r", "a", "r+"), f"mode:{f.qual}", f"mode {md!r} keeps the existing tables", where)
            if star and not (len(c.args) > 1 or any(k.arg == "mode" for k in c.keywords)):
                rep.undecided(f"mode:{f.qual}", "the mode can be given by keyword arguments", where)
            follow(P, rep, f, c, md, where)
    rep.check(True if nopen >= 4 else None, "handles", f"{nopen} handles on result files", "rt1")


def const_arg(P, f, c, pos, name, default=None):
    v = None
    if pos is not None and len(c.args) > pos:
        v = c.args[pos]
    for k in c.keywords:
        if k.arg == name:
            v = k.value
    if v is None:
        return default
    return const(P, f, v)


def const(P, f, v):
    if isinstance(v, ast.Constant):
        return v.value
    if isinstance(v, ast.Name):
        defs = [n.value for n in own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
        if len(defs) == 1 and v.id not in f.params():
            return const(P, f, defs[0])
        if not defs and v.id in f.params():
            # every caller passes the same constant
            vals = set()
            for g in funcs(P):
                for c in own(g.node):
                    if isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr == f.name or isinstance(c.func, ast.Name) and c.func.id == f.name):
                        off = 1 if f.cls is not None and not f.is_static else 0
                        i = f.params().index(v.id) - off
                        d = f.defaults().get(v.id)
                        x = const_arg(P, g, c, i, v.id, d.value if isinstance(d, ast.Constant) else None)
                        vals.add(x)
            if len(vals) == 1:
                return vals.pop()
        if not defs:
            r = P.resolve(f.module, v.id)
            if isinstance(r, tuple) and r[0] == "global" and isinstance(r[3], ast.Constant):
                return r[3].value
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in ("self", "cls") and f.cls is not None:
        a = P.find_attr(f.cls, v.attr) if hasattr(P, "find_attr") else None
        if isinstance(a, ast.Constant):
            return a.value
    return None


def follow(P, rep, f, c, md, where, depth=0):
    """the uses of the handle created by (or passed to) this expression"""
    par = getattr(c, "_parent", None)
    if isinstance(par, ast.withitem) and par.context_expr is c:
        if par.optional_vars is None:
            return
        if isinstance(par.optional_vars, ast.Name):
            return uses(P, rep, f, par.optional_vars.id, md, where, depth)
    if isinstance(par, ast.Assign) and len(par.targets) == 1:
        t = par.targets[0]
        if isinstance(t, ast.Name):
            return uses(P, rep, f, t.id, md, where, depth)
        if isinstance(t, ast.Attribute):
            return attr_uses(P, rep, t.attr, md, where)
    if isinstance(par, ast.NamedExpr) and isinstance(par.target, ast.Name):
        return uses(P, rep, f, par.target.id, md, where, depth)
    if isinstance(par, ast.Return):
        # factory: follow the callers
        n = 0
        for g in funcs(P):
            for k in own(g.node):
                if isinstance(k, ast.Call) and (isinstance(k.func, ast.Attribute) and k.func.attr == f.name or isinstance(k.func, ast.Name) and k.func.id == f.name):
                    n += 1
                    if depth < 4:
                        follow(P, rep, g, k, md, f"{g.file}:{k.lineno}", depth + 1)
        if n:
            return
    if isinstance(par, ast.Call) and c in par.args and isinstance(par.func, ast.Attribute) and par.func.attr == "enter_context":
        return follow(P, rep, f, par, md, where, depth)
    if isinstance(par, ast.Attribute):
        return one_use(P, rep, f, c, md, where)
    if isinstance(par, ast.Expr):
        return
    if isinstance(par, ast.Call) and c in par.args:
        return passed(P, rep, f, par, par.args.index(c), md, where, depth)
    rep.undecided(f"handle:{f.qual}", f"use of the handle in {unparse(par)[:80] if par is not None else '?'}", where)


def one_use(P, rep, f, node, md, where):
    par = getattr(node, "_parent", None)
    if isinstance(par, ast.Attribute) and par.value is node:
        m = par.attr
        call = getattr(par, "_parent", None)
        call = call if isinstance(call, ast.Call) and call.func is par else None
        w = f"{f.file}:{node.lineno}"
        if m in FORBIDDEN:
            rep.check(md == READ, f"use:{f.qual}:{m}", f".{m} on a handle with mode {md!r} replaces or removes stored tables", w)
        elif m in ("append", "append_to_multiple") and call is not None:
            ap = const_arg(P, f, call, None, "append", True)
            ap = const_arg(P, f, call, 3, "append", True) if m == "append" and ap is True else ap
            rep.check(ap is True if ap is not None else None, f"use:{f.qual}:{m}", "rows are appended", w)
        elif m in HARMLESS:
            rep.ok(f"use:{f.qual}:{m}", f".{m} keeps the stored tables", w)
        else:
            rep.undecided(f"use:{f.qual}:{m}", f".{m} on a result file", w)
        return True
    if isinstance(par, ast.Subscript) and par.value is node:
        w = f"{f.file}:{node.lineno}"
        rep.check(isinstance(par.ctx, ast.Load) or md == READ, f"use:{f.qual}:[]", "tables are not replaced / deleted by key", w)
        return True
    return False


def uses(P, rep, f, name, md, where, depth):
    if depth > 4:
        rep.undecided(f"handle:{f.qual}", "handle passed on too often", where)
        return
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)):
            continue
        if one_use(P, rep, f, n, md, where):
            continue
        par = getattr(n, "_parent", None)
        w = f"{f.file}:{n.lineno}"
        if isinstance(par, ast.Call) and n in par.args:
            passed(P, rep, f, par, par.args.index(n), md, w, depth)
        elif isinstance(par, ast.keyword):
            passed(P, rep, f, par._parent, par.arg, md, w, depth)
        elif isinstance(par, ast.Assign) and par.value is n and isinstance(par.targets[0], ast.Name):
            uses(P, rep, f, par.targets[0].id, md, w, depth + 1)
        elif isinstance(par, ast.Assign) and par.value is n and isinstance(par.targets[0], ast.Attribute):
            attr_uses(P, rep, par.targets[0].attr, md, w)
        elif isinstance(par, (ast.For, ast.comprehension, ast.Compare, ast.If, ast.IfExp, ast.BoolOp, ast.UnaryOp, ast.Expr, ast.withitem)):
            pass
        elif isinstance(par, ast.Return):
            follow(P, rep, f, n, md, w, depth + 1)
        else:
            rep.undecided(f"handle:{f.qual}", f"use of the handle in {unparse(par)[:80]}", w)


def passed(P, rep, f, call, pos, md, where, depth):
    """handle passed on as argument"""
    t = None
    off = 0
    if isinstance(call.func, ast.Name):
        r = P.resolve(f.module, call.func.id)
        t = r if r.__class__.__name__ == "Func" else next((g for g in funcs(P) if g.name == call.func.id and g.parent is f), None)
    elif isinstance(call.func, ast.Attribute):
        c = [g for g in funcs(P) if g.name == call.func.attr and g.cls is not None]
        if len(c) == 1:
            t = c[0]
            off = 0 if t.is_static else 1
    if t is None:
        d = dotted(call.func) or ""
        if d.split(".")[-1] in ("list", "len", "sorted", "iter", "set", "tuple", "map", "filter", "print", "str", "repr", "id", "type", "isinstance", "enumerate", "partial", "closing"):
            rep.ok(f"use:{f.qual}:{d}", f"read by {d}", where)
            return
        rep.undecided(f"handle:{f.qual}", f"handle passed to {unparse(call.func)[:60]}", where)
        return
    if isinstance(pos, int):
        ps = t.params()
        if pos + off >= len(ps):
            rep.undecided(f"handle:{f.qual}", f"handle passed to {t.qual}", where)
            return
        pos = ps[pos + off]
    uses(P, rep, t, pos, md, where, depth + 1)


def attr_uses(P, rep, attr, md, where):
    seen = 0
    for f in funcs(P):
        for n in own(f.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                if one_use(P, rep, f, n, md, where):
                    seen += 1
    rep.check(True, f"handle:.{attr}", f"{seen} uses of the stored handle", where)


# ---------------------------------------------------------------- the writer
class StoreV(vn.ModelObj):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def key(self):
        return "<store>"

    def method(self, ev, name, args, kw, env):
        if name == "append":
            b = bind(args, kw, "key", "value", "format", "axes", "index", "append")
            ev.rows.append((b.get("key"), b.get("value"), self, kw, ev.gates))
            return None
        if name in ("keys", "groups"):
            return vn.Unknown("keys of the file")
        if name in FORBIDDEN:
            ev.problems.append(f".{name} on the result file")
            return None
        return Thing("store." + name)

    def setitem(self, ev, idx, v, env):
        ev.problems.append("a table is replaced by key")

    def item(self, ev, idx):
        return Thing("table")

    def contains(self, ev, x):
        return ev.present


LOSSY = {"dropna", "drop_duplicates", "head", "tail", "query", "sample", "drop", "round", "fillna", "astype", "reset_index", "set_index", "sort_index", "sort_values", "groupby", "mean",
         "rename", "reindex", "filter", "nlargest", "truncate", "abs", "interpolate", "ffill", "bfill", "clip", "replace", "where", "mask", "transpose", "iloc", "loc"}


class Table(Thing):
    def method(self, ev, name, args, kw, env):
        if name in ("copy",):
            return self
        if name in LOSSY:
            return Table(f"{self.name}.{name}")
        return vn.Unknown("table." + name)

    def attr(self, ev, name, env):
        if name in ("iloc", "loc"):
            return Table(f"{self.name}.{name}")
        if name in ("index", "columns", "shape", "empty", "values"):
            return Thing(self.name + "." + name) if name in ("index", "columns", "shape") else vn.Unknown("table." + name)
        return NotImplemented

    def item(self, ev, idx):
        return Table(self.name + "[]")


class Queue(vn.ModelObj):
    def __init__(self, items):
        self.items = items

    def key(self):
        return "<queue>"

    def method(self, ev, name, args, kw, env):
        if name in ("get", "get_nowait"):
            if not self.items:
                raise vn.PyRaise(Kind("Empty", "QueueEmpty"))
            return self.items.pop(0)
        if name == "empty":
            return not self.items
        if name == "qsize":
            return len(self.items)
        ev.problems.append(f".{name} on the queue of results") if name in ("put", "put_nowait") else None
        return Thing("q")


class Flag(vn.ModelObj):
    def __init__(self, on):
        self.on = on

    def key(self):
        return "<flag>"

    def method(self, ev, name, args, kw, env):
        if name in ("is_set", "isSet"):
            return self.on
        if name == "set":
            self.on = True
        if name == "clear":
            self.on = False
        return None


class Write(vn.Evaluator):
    def __init__(self, P):
        super().__init__(P)
        self.exact_try = True
        self.rows, self.problems, self.unsure, self.opened = [], [], [], []
        for d in ("pandas.HDFStore", "pandas.io.pytables.HDFStore"):
            self.ext[d] = self.store
        self.ext["multiprocessing.current_process"] = lambda ev, a, k: Thing("proc", name="p")
        self.ext["builtins.len"] = lambda ev, a, k: sym("$rows") if a and isinstance(a[0], (Thing, Table)) else ev.ext_plain("builtins.len", a, k)
        self.ext["builtins.callable"] = lambda ev, a, k: a[0] is not None
        self.ext["builtins.print"] = lambda ev, a, k: None
        for d in ("time.sleep", "timeit.default_timer", "time.time"):
            self.ext[d] = lambda ev, a, k: sym("$t")
        self.ext["collections.defaultdict"] = lambda ev, a, k: Thing("dd")
        self.ext["contextlib.closing"] = lambda ev, a, k: a[0]

    @staticmethod
    def store(ev, a, k):
        b = bind(a, k, "path", "mode")
        s = StoreV(b.get("path"), b.get("mode", "a"))
        ev.opened.append(s)
        return s

    def wrap(self, r, env):
        if isinstance(r, tuple) and r[0] == "global" and r[2] == "log":
            return Thing("log")
        return super().wrap(r, env)

    def truth(self, v, node):
        if isinstance(v, Thing):
            return True
        r = super().truth(v, node)
        if not isinstance(r, bool):
            self.unsure.append(unparse(node)[:80] if isinstance(node, ast.AST) else str(node))
        return r


def writer(P, rep):
    cls = P.cls("RT1_processor")
    f = P.find_method(cls, "_save_file_process")
    if f is None:
        raise AnalysisBroken("RT1_processor._save_file_process not found")
    where = f"{f.file}:{f.qual}"
    A = [Table(f"t{i}") for i in range(6)]
    for name, items in (("one result", [{"cfg/a": A[0]}]),
                        ("several keys", [{"reader_arg": A[0], "cfg/a": A[1], "b": A[2]}]),
                        ("several results", [{"cfg/a": A[0], "reader_arg": A[1]}, {"cfg/a": A[2], "reader_arg": A[3]}, {"b": A[4]}])):
        for init, present in ((None, False), (None, True), (Thing("init"), True)):
            ev = Write(P)
            ev.present = present
            q = Queue([vn.DictV(dict(d)) for d in items])
            heap = {}
            for k, v in dict(out_queue=q, combiner_ready=Flag(True), _stop=Flag(False), should_wait=Flag(True), write_lock=Thing("lock"), out_cache_size=10,
                             dst_path="dst", HDF_kwargs=vn.DictV({}), p_max=Thing("p_max", value=7), min_itemsize=None).items():
                heap[("self", k)] = v
            nm = f"writer:{name}{':init' if init else ''}:{'keys exist' if present else 'new keys'}"
            try:
                ev.run(f, kw={"init_func": init, "init_args": vn.Seq([1]) if init else None}, selfv=vn.Obj("self", cls), heap=heap)
            except vn.PyRaise as e:
                rep.bad(nm, f"raises {e.kind}", where)
                continue
            rep.analysed |= ev.visited
            want = sorted((k, v.name) for d in items for k, v in d.items())
            got = []
            unk = False
            for k, v, s, kw, u in ev.rows:
                if not isinstance(k, str) or not isinstance(v, (Table, vn.Seq)) :
                    unk = True
                got.append((k if isinstance(k, str) else vn.key(k), v.name if isinstance(v, Table) else vn.key(v)[:60]))
            for b in sorted(set(ev.problems)):
                rep.bad(nm, b, where)
            if sorted(got) == want and not any(u for *_, u in ev.rows):
                rep.ok(nm, f"every delivered table is appended once under its key ({got})", where)
            elif unk or any(u for *_, u in ev.rows) or (ev.unsure and len(got) < len(want)):
                rep.undecided(nm, f"appended: {got}; delivered: {want}; conditions left open {ev.unsure[:2]}", where)
            else:
                rep.bad(nm, f"appended: {got}; delivered: {want}", where)
            rep.check(all(s.mode in ("a", "r+") and s.path == "dst" for s in ev.opened), nm + ":file", "written to the result file, which is opened for appending", where)
            rep.check(all(kw.get("append", True) is True for *_, kw, u in ev.rows), nm + ":append", "rows are added to existing ones", where)
            idc = [kw.get("data_columns") for k, v, s, kw, u in ev.rows if k == "reader_arg"]
            for d in idc:
                c = ev.concrete(d) if d not in (None, True) else d
                rep.check(True if d is True or (c and "ID" in c) else None if c is None and d is not None else False, nm + ":id", "the ID of the reader arguments can be queried", where)


CHECKS = {"P17": p_append, "P18": p_confirm}
