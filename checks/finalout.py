"""P24: which fits a final output covers, and that the fit database is closed afterwards"""
import ast

from rtsa import vn
from rtsa.model import AnalysisBroken

from .effects import Path_, Thing, bind
from .frames import DF, Idx, listed
from .process import FitV, Fn
from .recreate import TooMany
from .stored import Careful, Fn2, Pandas, evaluator, tried


class Entry(vn.ModelObj):
    """os.DirEntry"""

    def __init__(self, path, file):
        self.path, self.file = path, file

    def key(self):
        return "<entry " + "/".join(self.path.parts_) + ">"

    def attr(self, ev, name, env):
        if name == "name":
            return self.path.parts_[-1]
        if name == "path":
            return "/".join(self.path.parts_)
        return NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "is_file":
            return self.file
        if name == "is_dir":
            return not self.file
        return NotImplemented


class Dir(vn.ModelObj):
    """the iterator of os.scandir"""

    def __init__(self, items):
        self.items = items

    def key(self):
        return "<scandir>"

    def iter(self, ev):
        return list(self.items)

    def method(self, ev, name, args, kw, env):
        return None if name == "close" else NotImplemented

    def leave(self, ev):
        return None


class DB(vn.ModelObj):
    """HDFaccessor: the IDs are those of the file at the time it is opened"""

    def __init__(self, ev, path):
        self.disk, self.path, self.open = ev.disk, path, True
        self.ids = list(ev.disk.db.get(path, ()))
        ev.opened.append(self)

    def key(self):
        return "<db " + "/".join(self.path) + ">"

    def attr(self, ev, name, env):
        if name == "IDs":
            return DF({"ID": list(self.ids)}, Idx([(i,) for i in range(len(self.ids))]))
        if name == "store":
            return Store(self)
        if name == "load_fit":
            return Fn2(lambda e, a, k: self.load(e, a[0] if a else k.get("ID")), "load_fit")
        return NotImplemented

    def load(self, ev, ID):
        if not self.open:
            raise vn.PyRaise("ClosedFileError")
        return ev.fit(("db", self.path, vn.key(ID)))

    def method(self, ev, name, args, kw, env):
        return NotImplemented

    def leave(self, ev):
        self.open = False


class Store(vn.ModelObj):
    def __init__(self, db):
        self.db = db

    def key(self):
        return "<store>"

    def attr(self, ev, name, env):
        return self.db.open if name == "is_open" else NotImplemented

    def method(self, ev, name, args, kw, env):
        if name == "close":
            self.db.open = False
            return None
        return NotImplemented


class Disk:
    """the result-folders: dump-files and IDs of the database"""

    def __init__(self, folder, ids, dumps, db=True, sub=False):
        self.folder, self.sub = tuple(folder), sub
        self.cfg = self.folder[:-1] if sub else self.folder
        self.ids, self.dumps, self.has_db = list(ids), list(dumps), db
        self.others = ["a_error.dump", "notes.txt", "old.dump/"]

    @property
    def db(self):
        return {self.folder + ("results", "fit_db.h5"): self.ids} if self.has_db else {}

    def entries(self, p):
        f = self.folder
        if p == f:
            names = ["cfg/", "results/", "dumps/", "log.txt"]
        elif p == f[:-1]:
            names = [f[-1] + "/", "x.txt"] + (["other/"] if self.sub else [])
        elif self.sub and p == f[:-1] + ("other",):
            names = ["cfg/", "results/", "dumps/"]
        elif self.sub and p[:len(f)] == f[:-1] + ("other",):
            names = []
        elif p == f + ("dumps",):
            names = [self.others[0], *self.dumps, *self.others[1:]]
        elif p == f + ("results",):
            names = (["fit_db.h5"] if self.has_db else []) + ["other.h5", "old.nc"]
        elif p[:len(f)] == f:
            names = []
        else:
            raise vn.PyRaise("FileNotFoundError")
        return [Entry(Path_(p + (n.rstrip("/"),)), not n.endswith("/")) for n in names]

    def exists(self, p, how):
        top = self.cfg
        if p in (self.folder, self.folder[:-1], top):
            return how not in ("isfile", "is_file")
        return any(e.path.parts_ == p and (how == "exists" or e.file == (how in ("isfile", "is_file"))) for e in self.entries(p[:-1])) if p[:len(top)] == top else False


def cached(f):
    names = [ast.unparse(d.func if isinstance(d, ast.Call) else d).rsplit(".", 1)[-1] for d in f.node.decorator_list]
    return any(n in ("lru_cache", "cache", "cached_property") for n in names)


class Files(Pandas):
    """evaluator over the result-folders"""

    def __init__(self, P, disk):
        super().__init__(P)
        self.disk, self.opened, self.loaded, self.runs, self.memo, self.crash = disk, [], [], [], {}, None
        E = self.ext
        E["pathlib.Path"] = lambda e, a, k: a[0].path if isinstance(a[0], Entry) else Path_([x for y in a for x in Path_.of(y).parts_]) if all(Path_.of(y) for y in a) else e.unknown("Path")
        E["os.scandir"] = lambda e, a, k: e.scan(a[0] if a else k["path"])
        E["os.listdir"] = lambda e, a, k: vn.Seq([x.path.parts_[-1] for x in e.scan(a[0]).items])
        E["os.path.join"] = lambda e, a, k: "/".join(x for y in a for x in Path_.of(y).parts_)
        E["builtins.str"] = lambda e, a, k: "/".join(a[0].parts_) if a and isinstance(a[0], Path_) else Pandas.text(e, a, k)
        E["itertools.islice"] = self.islice
        E["builtins.open"] = lambda e, a, k: Thing("file")
        E["builtins.callable"] = lambda e, a, k: isinstance(a[0], (Fn, Fn2, vn.FuncV, vn.Partial, vn.Lam, vn.BoundM)) or (False if isinstance(a[0], (str, int, float)) or a[0] is None else e.unknown("callable"))
        E["gc.collect"] = lambda e, a, k: 0
        E["multiprocessing.current_process"] = lambda e, a, k: Thing("proc", name="MainProcess")
        for d in ("exists", "isdir", "isfile"):
            E["os.path." + d] = lambda e, a, k, d=d: e.exists(Path_.of(a[0]), d)
        for n in ("numpy.random.choice", "random.choice"):
            E[n] = lambda e, a, k: listed(e, a[0])[0]
        self.opaque["rtfits.load"] = lambda e, s, b, x: e.load(b["path"])
        self.opaque["RT1_processor.writer_pool"] = lambda e, s, b, x: Pool(e, {**{k: v for k, v in (b or {}).items() if k not in ("args", "kwargs")}, **(b.get("kwargs").d if isinstance((b or {}).get("kwargs"), vn.DictV) else {})}, x)
        self.opaque["RT1_processor.create_index"] = lambda e, s, b, x: None
        self.opaque["RTprocess.setup"] = lambda e, s, b, x: None
        self.opaque["RTprocess.override_config"] = lambda e, s, b, x: None
        cls = P.cls("_RT1_fitresult")
        for name in ("fit_db",):
            f = P.find_prop(cls, name)
            if f is not None and cached(f):
                self.opaque["_RT1_fitresult." + name] = lambda e, s, b, x, f=f: e.once(f, s)
        self.opaque["_RT1_fitresult._reset_fit_db_cache"] = lambda e, s, b, x: e.memo.clear()

    def getattr(self, o, name, env, node=None):
        if o is None:
            raise vn.PyRaise("AttributeError")
        return super().getattr(o, name, env, node)

    @staticmethod
    def islice(e, a, k):
        if all(x is None or type(x) is int for x in a[1:]):
            return vn.IterV(listed(e, a[0])[slice(*a[1:])])
        return e.unknown("islice")

    def once(self, f, s):
        """a cached property"""
        if s.path not in self.memo:
            key = "_RT1_fitresult." + f.name
            o = self.opaque.pop(key)
            try:
                self.memo[s.path] = self.call_func(vn.FuncV(f, s), [], {}, None, self.heap)
            finally:
                self.opaque[key] = o
        return self.memo[s.path]

    def scan(self, p):
        p = Path_.of(p)
        if p is None:
            raise vn.Undecided("folder")
        return Dir(self.disk.entries(p.parts_))

    def listdir(self, p, name, args):
        import fnmatch
        out = self.disk.entries(p.parts_)
        if name == "rglob" or args and not isinstance(args[0], str):
            raise vn.Undecided("glob")
        return vn.Seq([x.path for x in out if not args or fnmatch.fnmatchcase(x.path.parts_[-1], args[0])])

    def exists(self, p, how):
        if p is None:
            raise vn.Undecided("path")
        return self.disk.exists(p.parts_, how)

    def do(self, what, p, info=None):
        return None

    @property
    def fs(self):
        return set()

    def load(self, p):
        q = Path_.of(p)
        if q is None:
            if p is None:
                raise vn.PyRaise("TypeError")
            raise vn.Undecided("path")
        return self.fit(("file", q.parts_))

    def fit(self, what):
        self.loaded.append(what)
        if what[0] == "file" and what[1] not in [e.path.parts_ for e in self.disk.entries(self.disk.folder + ("dumps",)) if e.file] + [("else", "x.dump")]:
            raise vn.PyRaise("FileNotFoundError")
        if what[0] == "db" and what[2].strip("'\"") not in self.disk.ids and not what[2].isdigit():
            raise vn.PyRaise("KeyError")
        return FitV(self, "fit " + str(what), "Fits", ID=str(what), int_Q=False, reader_arg=vn.DictV({}))

    def wrap(self, r, env):
        if isinstance(r, tuple) and r[0] == "global" and r[2] == "log":
            return Thing("log", setLevel=Fn2(self.level, "setLevel"), handlers=vn.Seq([]))
        return super().wrap(r, env)

    @staticmethod
    def level(e, a, k):
        if (a[0] if a else k.get("level")) is None:
            raise vn.PyRaise("TypeError")

    def apply(self, f, args, kw, node, env):
        if isinstance(f, vn.ClassV) and f.cls.name == "HDFaccessor":
            p = Path_.of(args[0] if args else kw.get("path"))
            if p is None or p.parts_ not in self.disk.db:
                raise vn.PyRaise("FileNotFoundError")
            return DB(self, p.parts_)
        if isinstance(f, vn.ClassV) and f.cls.name == "RT1_configparser":
            return Thing("cfg", get_process_specs=Fn("specs", vn.DictV({"save_path": Path_(self.disk.cfg[:-1]), "dumpfolder": self.disk.cfg[-1]})))
        return super().apply(f, args, kw, node, env)


class Pool(vn.ModelObj):
    """RT1_processor.writer_pool(...): the features are loaded while it runs"""

    def __init__(self, ev, b, extra):
        self.b, self.extra = b, extra
        ev.pools.append(self)

    def key(self):
        return "<writer pool>"

    def method(self, ev, name, args, kw, env):
        if name != "run_starmap":
            return NotImplemented
        b = bind(args, kw, "arg_list", "process_func", "reader_func", "pool_kwargs", "starmap_args", "ID_getter")
        items = listed(ev, b["arg_list"])
        if items is None:
            raise vn.Undecided("arg_list")
        ev.runs.append((items, self.b))
        pk = b.get("pool_kwargs")
        ev.pool_kwargs = dict(pk.d) if isinstance(pk, vn.DictV) else {} if pk is None else None
        if ev.crash:
            raise vn.PyRaise("RuntimeError")
        reader = b.get("reader_func")
        got = []
        for n, a in enumerate(items):
            if not isinstance(a, vn.DictV):
                raise vn.PyRaise("TypeError")
            before = len(ev.loaded)
            r = ev.apply(reader, [vn.DictV({**a.d, "_RT1_ID_num": n})], {}, None, env) if reader is not None else None
            got.append((ev.loaded[before:], r))
        ev.got.append(got)
        return "RES"


def process(ev, P, multi=False):
    cls = P.cls("RTprocess")
    o = vn.Obj(vn.fresh("proc"), cls)
    ev.made_paths.add(o.path)
    d = ev.disk.cfg
    parent = FitV(ev, "parent", "Fits", int_Q=False, _fnevals_input=None)
    proc_cls = Thing("proc_cls", rt1_procsesing_respath=Path_(d + ("results",)), finalout_name="out.h5", dumpfolder=d[-1], postprocess=Fn("post", 1),
                     preprocess=Fn("preprocess", None), finalizer=Fn("finalizer", None), description="text", exceptfunc=Fn("exceptfunc", None))
    for n, v in dict(dumppath=Path_(d), proc_cls=proc_cls, parent_fit=parent, autocontinue=True, init_kwargs=vn.DictV({}), config_path=Path_(("cfg.ini",)), copy=True,
                     _proc_cls=None, _parent_fit=None, hdf_export_kwargs=vn.DictV({}), cfg=Thing("cfg", get_process_specs=Fn("specs", vn.DictV({"save_path": Path_(d[:-1]), "dumpfolder": d[-1]})))).items():
        ev.heap[(o.path, n)] = v
    return o


def scene(P, rep, tag, folder, calls, dumps=("a.dump", "b.dump"), ids=("A", "B", "C"), db=True, sub=False):
    """calls: (change of the disk, method, arguments, expected sources, crash)"""
    cls = P.cls("RTprocess")
    disk = Disk(folder, ids, dumps, db, sub)
    ev = Files(P, disk)
    ev.top = P.find_method(cls, "__init__")
    ev.pools, ev.got = [], []
    o = process(ev, P)
    where = ""
    try:
        for i, (change, name, kw, want, crash) in enumerate(calls):
            t = f"{tag}:call {i + 1}" if len(calls) > 1 else tag
            f = P.find_method(cls, name)
            if f is None:
                raise AnalysisBroken(f"RTprocess.{name} is gone")
            where = f"{f.file}:{f.lineno} {f.qual}"
            for k, v in (change or {}).items():
                setattr(disk, k, list(v))
            ev.runs, ev.got, ev.loaded, ev.pools, ev.crash = [], [], [], [], crash
            raised = None
            try:
                ev.call_func(vn.FuncV(f, o), [1] if name == "run_finaloutput" else [], dict(kw, logfile_level=None), None, ev.heap)
            except vn.PyRaise as e:
                raised = e.kind
            if ev.unsure:
                rep.undecided(t, f"left open {ev.unsure[:3]}", where)
                return
            if crash:
                rep.check(raised == "RuntimeError", t + ":raised", f"an exception of the run is passed on ({raised})", where)
            elif raised:
                rep.bad(t, f"raises {raised}", where)
            else:
                rep.check(len(ev.got) == 1, t + ":run", "the features are processed in one run", where)
                got = [x[0] for g in ev.got for x in g]
                exp = [[w] for w in want(disk)]
                rep.check(got == exp, t, f"post-processed fits: {short(got)} expected {short(exp)}", where)
                rep.check(all(isinstance(x[1], FitV) for g in ev.got for x in g), t + ":loaded", "every selected fit is loaded", where)
            rep.check(not any(d.open for d in ev.opened), t + ":closed", "the fit database is closed when the run has ended", where)
    except (TooMany, vn.Undecided) as e:
        rep.check(None, tag, str(e), where)
    rep.analysed |= ev.visited


def fits_of(P, rep, use_dumps):
    """dump_files / dump_fits of a result"""
    disk = Disk(("save", "dump"), ("A", "B", "C"), ("a.dump", "b.dump"))
    ev = Files(P, disk)
    ev.pools, ev.got, tag = [], [], f"iteration:use_dumps={use_dumps}"
    f = P.find_prop(P.cls("_RT1_fitresult"), "dump_fits")
    ev.top = f or P.find_prop(P.cls("_RT1_fitresult"), "dump_files")
    where = f"{ev.top.file}:{ev.top.lineno} {ev.top.qual}"
    try:
        res = ev.apply(vn.ClassV(P.cls("RTresults")), [Path_(disk.folder)], {"use_dumps": use_dumps}, None, ev.env_())
        o = ev.getattr(res, "dump", ev.env_())
        names = [vn.key(i) if not use_dumps else Path_.of(i).parts_ for i in listed(ev, ev.getattr(o, "dump_files", ev.env_()))]
        want = [w[1] if use_dumps else w[2] for w in (in_dumps() if use_dumps else in_db())(disk)]
        rep.check(names == want, tag + ":files", f"dump_files yields {str(names)[:120]}", where)
        if f is not None:
            ev.loaded = []
            listed(ev, ev.getattr(o, "dump_fits", ev.env_()))
            want = (in_dumps() if use_dumps else in_db())(disk)
            rep.check(ev.loaded == want, tag + ":fits", f"dump_fits loads {short([ev.loaded])}", where)
        if ev.unsure:
            rep.undecided(tag, f"left open {ev.unsure[:3]}", where)
    except vn.PyRaise as e:
        rep.bad(tag, f"raises {e.kind}", where)
    except (TooMany, vn.Undecided) as e:
        rep.check(None, tag, str(e), where)
    rep.analysed |= ev.visited


def short(g):
    return str([[("/".join(w[1]) if w[0] == "file" else w[2]) for w in x] for x in g])[:200]


def in_db(*n):
    return lambda d: [("db", d.folder + ("results", "fit_db.h5"), vn.key(i)) for i in (d.ids[:n[0]] if n else d.ids)]


def in_dumps(*n):
    return lambda d: [("file", d.folder + ("dumps", i)) for i in (d.dumps[:n[0]] if n else d.dumps)]


def files(*names):
    return lambda d: [("file", n) for n in names]


def p24(P, tier):
    rep = Careful("P24", tier, "run_finaloutput and export_data_to_HDF are evaluated, with the real code that looks up and loads the fits, over a model of a result-folder "
                  "(dump-files, other entries, fit_db.h5 whose IDs are read when it is opened), also in sequences of calls with changes of the folder in between and with failing runs; "
                  "the fits that are handed to the pool and those that its reader loads are compared with the selected ones, and opened databases must be closed at the end")
    post = Fn2(lambda e, a, k: None, "post")
    run = dict(postprocess=post)
    exp = dict(parameters=vn.Seq(["tau"]), pre_evaluate_fn_coefs=False)
    R, X = "run_finaloutput", "export_data_to_HDF"
    for folder in (("save", "dump"), ("save", "dump_0.1"), ("save", "a.b.dump"), ("save", "sub.x", "dump"), ("error.dump", "error"), ("my.h5", "x")):
        t = "/".join(folder)
        scene(P, rep, f"{t}:database", folder, [(None, R, run, in_db(), False)])
        scene(P, rep, f"{t}:dumps", folder, [(None, R, dict(run, use_dumps=True), in_dumps(), False)])
        scene(P, rep, f"{t}:dumps without database", folder, [(None, R, dict(run, use_dumps=True), in_dumps(), False)], db=False)
        scene(P, rep, f"{t}:export", folder, [(None, X, exp, in_db(), False)])
        scene(P, rep, f"{t}:export dumps", folder, [(None, X, dict(exp, use_dumps=True), in_dumps(), False)])
        scene(P, rep, f"{t}:export dumps without database", folder, [(None, X, dict(exp, use_dumps=True), in_dumps(), False)], db=False)
    folder = ("save", "dump")
    D = folder + ("dumps",)
    for n in (0, 1, 2, 3, 7):
        scene(P, rep, f"first {n}:database", folder, [(None, R, dict(run, use_N_files=n), in_db(n), False)])
        scene(P, rep, f"first {n}:dumps", folder, [(None, R, dict(run, use_N_files=n, use_dumps=True), in_dumps(n), False)])
        scene(P, rep, f"first {n}:export", folder, [(None, X, dict(exp, use_nfiles=n), in_db(n), False)])
    dump = lambda n: Path_(D + (n,))
    lists = {
        "paths": (vn.Seq([dump("b.dump")]), files(D + ("b.dump",))),
        "paths elsewhere": (vn.Seq([Path_(("else", "x.dump")), dump("a.dump")]), files(("else", "x.dump"), D + ("a.dump",))),
        "names of files": (vn.Seq(["save/dump/dumps/b.dump", "save/dump/dumps/a.dump"]), files(D + ("b.dump",), D + ("a.dump",))),
    }
    for name, (ls, want) in lists.items():
        for ud in (False, True):
            scene(P, rep, f"fitlist:{name}:use_dumps={ud}", folder, [(None, R, dict(run, fitlist=ls, use_dumps=ud), want, False)])
    scene(P, rep, "fitlist:IDs", folder, [(None, R, dict(run, fitlist=vn.Seq([vn.DictV({"ID": "C"}), vn.DictV({"ID": "A"})])), lambda d: [in_db()(d)[2], in_db()(d)[0]], False)])
    for ud in (False, True):
        w = in_dumps() if ud else in_db()
        scene(P, rep, f"one of several results:use_dumps={ud}", folder + ("res",), [(None, X, dict(exp, dumpfolder="res", use_dumps=ud), w, False)], sub=True)
        fits_of(P, rep, ud)
    scene(P, rep, "fitlist:names of dumps", folder, [(None, R, dict(run, fitlist=vn.Seq([vn.DictV({"ID": n}) for n in ("b.1", "a.dump")]), use_dumps=True), files(D + ("b.1.dump",), D + ("a.dump",)), False)],
          dumps=("a.dump", "b.1.dump", "b.2.dump"))
    more, fewer = dict(ids=["A", "B", "C", "D"], dumps=["a.dump", "b.dump", "c.dump"]), dict(ids=["B"], dumps=["b.dump"])
    kinds = {
        "database": (R, run, in_db()), "dumps": (R, dict(run, use_dumps=True), in_dumps()), "first of the database": (R, dict(run, use_N_files=1), in_db(1)),
        "fitlist": (R, dict(run, fitlist=vn.Seq([dump("b.dump")])), files(D + ("b.dump",))), "export": (X, exp, in_db()), "export dumps": (X, dict(exp, use_dumps=True), in_dumps()),
    }
    for k1, (m1, a1, w1) in kinds.items():
        for k2, (m2, a2, w2) in kinds.items():
            for cn, change in (("unchanged", None), ("more fits", more), ("fewer fits", fewer)):
                for crash in (False, True):
                    if crash and tier == "quick" and cn != "more fits":
                        continue
                    scene(P, rep, f"{k1} then {k2}:{cn}:{'after a failing run' if crash else 'after a run'}", folder, [(None, m1, a1, w1, crash), (change, m2, a2, w2, False)])
    rep.minimum = 300
    return rep



def workers(P, rep):
    """with and without a log-file: the functions that initialise writers, combiners and workers do not raise"""
    cls = P.cls("RTprocess")
    for name, given in (("run_processing", "arguments"), ("run_processing", "preprocess"), ("run_processing", "mixed"), ("run_finaloutput", "")):
        for level in (None, 10, 21):
            for worker in ("MainProcess", "ForkPoolWorker-2"):
                tag = f"initialisation:{name}:{given}:logfile_level={level}:{worker}"
                ev = Files(P, Disk(("save", "dump"), ("A", "B"), ("a.dump",)))
                ev.pools, ev.got = [], []
                f = P.find_method(cls, name)
                if f is None:
                    raise AnalysisBroken(f"RTprocess.{name} is gone")
                ev.top, where = f, f"{f.file}:{f.lineno} {f.qual}"
                o = process(ev, P)
                q, cnt, listener = Thing("queue", put_nowait=Fn("put", None)), Thing("counter", value=0), Thing("listener", start=Fn("start", None), is_alive=Fn("alive", True), join=Fn("join", None))
                E = ev.ext
                E["multiprocessing.Manager"] = lambda e, a, k: Thing("manager", Queue=Fn("Queue", q), Value=Fn("Value", cnt))
                E["multiprocessing.Process"] = lambda e, a, k: listener
                E["logging.handlers.QueueHandler"] = lambda e, a, k: Thing("handler", setLevel=Fn2(e.level, "setLevel"), name=None, close=Fn("close", None))
                E["logging.getLogger"] = lambda e, a, k: Thing("logger", addHandler=Fn("add", None), handlers=vn.Seq([]), setLevel=Fn2(e.level, "setLevel"))
                E["logging.captureWarnings"] = lambda e, a, k: None
                now = {"name": "MainProcess"}
                E["multiprocessing.current_process"] = lambda e, a, k: Thing("proc", name=now["name"])
                ev.opaque["rtprocess.groupby_unsorted"] = ev.opaque["general_functions.groupby_unsorted"] = lambda e, s, b, x: vn.DictV({})
                inits = []
                user = Fn2(lambda e, a, k: inits.append((a, k)), "initializer")
                kw = dict(logfile_level=level)
                if name == "run_processing":
                    ra, pk = vn.Seq([vn.DictV({"ID": "A"})]), vn.DictV({"initializer": user, "initargs": vn.Seq([7, "x"])})
                    kw.update({} if given == "preprocess" else {"reader_args": ra}, **({"pool_kwargs": pk} if given == "arguments" else {}))
                    pre = {} if given == "arguments" else {"pool_kwargs": pk, **({"reader_args": ra} if given == "preprocess" else {})}
                    ev.heap[(o.path, "proc_cls")].attrs["preprocess"] = Fn("preprocess", lambda e, a, k: vn.DictV(dict(pre)) if pre else None)
                else:
                    kw["postprocess"] = Fn("post", 1)
                try:
                    ev.call_func(vn.FuncV(f, o), [1], kw, None, ev.heap)
                    if not ev.pools:
                        rep.undecided(tag, "no pool is started", where)
                        continue
                    b = ev.pools[-1].b
                    init, args = b.get("init_func"), b.get("init_args")
                    rep.check(True, tag, "the run ends without an error", where)
                    now["name"] = worker
                    try:
                        if init is not None:
                            ev.apply(init, [] if args is None else listed(ev, args), {}, None, ev.env_())
                        rep.check(True, tag + ":writer", "writer and combiner processes start", where)
                    except vn.PyRaise as e:
                        rep.bad(tag + ":writer", f"the initialisation of the writer and combiner processes raises {e.kind}, so that no result is written", where)
                    pk = ev.pool_kwargs
                    if pk is None:
                        rep.undecided(tag + ":pool", "arguments of the pool", where)
                        continue
                    try:
                        if pk.get("initializer") is not None:
                            ev.apply(pk["initializer"], listed(ev, pk["initargs"]) if pk.get("initargs") is not None else [], {}, None, ev.env_())
                        rep.check(True, tag + ":pool", "the workers start", where)
                    except vn.PyRaise as e:
                        rep.bad(tag + ":pool", f"the initialisation of the workers raises {e.kind}, so that nothing is processed", where)
                    if name == "run_processing":
                        rep.check(inits == [([7, "x"], {})], tag + ":initializer", f"the initializer of the pool_kwargs is called once with its initargs (got {str(inits)[:80]})", where)
                except vn.PyRaise as e:
                    rep.bad(tag, f"raises {e.kind}", where)
                except (TooMany, vn.Undecided) as e:
                    rep.check(None, tag, str(e), where)
                if ev.unsure:
                    rep.undecided(tag, f"left open {ev.unsure[:3]}", where)
                rep.analysed |= ev.visited


CHECKS = {"P24": p24}
