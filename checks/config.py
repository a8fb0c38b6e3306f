"""P12: configuration files are interpreted as documented, overrides win"""
import ast

from rtsa import vn
from rtsa.model import AnalysisBroken

from .effects import Path_, Thing, bind
from .recreate import Dunder, TooMany, call, new, show
from .stored import Careful, Fn2, Pandas, get

# Texts: n.. stands for any numeral, b.. for any boolean word, everything else is
# some text that can not be converted.


class Conv(vn.ModelObj):
    """result of a conversion of a text"""

    def __init__(self, kind, *of):
        self.kind, self.of = kind, of

    def key(self):
        return f"{self.kind}<{','.join(map(str, self.of))}>"

    def compare(self, ev, op, other):
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(other, Conv):
            return (self.key() == other.key()) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (other is None or isinstance(other, str)):
            return isinstance(op, (ast.IsNot, ast.NotEq))
        return NotImplemented


def convert(kind, text):
    if isinstance(text, Conv) and kind in ("int", "float") and text.kind in ("int", "float"):
        return Conv(kind, text.key())
    if not isinstance(text, str):
        raise vn.PyRaise("AttributeError" if kind == "bool" else "TypeError")
    t = text.strip() if kind != "bool" else text
    if t[:1].isdigit():
        return Conv(kind, t)
    if kind == "bool":
        if t.startswith("b") or t in ("True", "False"):
            return Conv("bool", t)
        raise vn.PyRaise("ValueError")
    if t.startswith("n"):
        return Conv(kind, t)
    raise vn.PyRaise("ValueError")


class Section(vn.ModelObj):
    def __init__(self, cfg, name, d):
        self.cfg, self.name, self.d = cfg, name, d

    def key(self):
        return f"[{self.name}]"

    def opt(self, k):
        if not isinstance(k, str):
            raise vn.Undecided("name of an option")
        return k if self.cfg.keep else k.lower()

    def text(self, k):
        v = self.d[self.opt(k)]
        if isinstance(v, str) and "${" in v and self.cfg.interpolate:
            for s, x in self.cfg.secs.items():
                for n in x.d:
                    for ref in (f"${{{s}:{n}}}", *([f"${{{n}}}"] if s == self.name else [])):
                        if ref in v:
                            v = v.replace(ref, x.text(n))
        return v

    def iter(self, ev):
        return list(self.d)

    def contains(self, ev, k):
        return self.opt(k) in self.d

    def item(self, ev, k):
        if self.opt(k) not in self.d:
            raise vn.PyRaise("KeyError")
        return self.text(k)

    def setitem(self, ev, k, v, env):
        if not isinstance(v, str) and not (v is None and self.cfg.novalue):
            if isinstance(v, (vn.Unknown, vn.Ite)):
                raise vn.Undecided("value of an option")
            raise vn.PyRaise("TypeError")
        self.d[self.opt(k)] = v

    def delitem(self, ev, k):
        if self.d.pop(self.opt(k), None) is None:
            raise vn.PyRaise("KeyError")

    def attr(self, ev, name, env):
        return self.name if name == "name" else NotImplemented

    def method(self, ev, name, args, kw, env):
        kw = dict(kw)
        if name in ("get", "getint", "getfloat", "getboolean"):
            k = args[0] if args else kw.pop("option")
            has = "fallback" in kw or len(args) > 1
            fb = kw.pop("fallback", args[1] if len(args) > 1 else None)
            if kw.pop("raw", False) or kw:
                return NotImplemented
            if self.opt(k) not in self.d:
                if name == "get" or has:
                    return fb
                return None
            t = self.text(k)
            return t if name == "get" else convert({"getint": "int", "getfloat": "float", "getboolean": "bool"}[name], t)
        if name == "items":
            return vn.IterV([vn.Seq([k, self.text(k)], "tuple") for k in self.d])
        if name == "keys":
            return vn.IterV(list(self.d))
        if name == "values":
            return vn.IterV([self.text(k) for k in self.d])
        if name == "update" and len(args) <= 1 and all(isinstance(a, vn.DictV) for a in args):
            for k, v in {**(args[0].d if args else {}), **kw}.items():
                self.setitem(ev, k, v, env)
            return None
        return NotImplemented


class Config(vn.ModelObj):
    """a ConfigParser"""

    def __init__(self, files, a, k):
        b = bind(a, k, "defaults", "dict_type", "allow_no_value")
        self.novalue = b.get("allow_no_value", False) is True
        self.interpolate = "Extended" in vn.key(k.get("interpolation")) if "interpolation" in k else False
        self.files, self.keep, self.secs = files, False, {}
        if any(n not in ("allow_no_value", "interpolation") for n in k) or len(a) > 3:
            raise vn.Undecided(f"options of the ConfigParser: {sorted(k)}")

    def key(self):
        return "<config>"

    def as_dict(self):
        return vn.DictV({"DEFAULT": Section(self, "DEFAULT", {}), **self.secs})

    def setattr(self, ev, name, v, env):
        if name == "optionxform":
            self.keep = vn.key(v) in ("builtins.str", "str") or (isinstance(v, (vn.Lam, vn.FuncV)) and ev.apply(v, ["AbC"], {}, None, env) == "AbC")
            return None
        return NotImplemented

    def iter(self, ev):
        return ["DEFAULT", *self.secs]

    def contains(self, ev, k):
        return k == "DEFAULT" or k in self.secs

    def item(self, ev, k):
        if k not in self.secs:
            if not isinstance(k, str):
                raise vn.Undecided("name of a section")
            raise vn.PyRaise("KeyError")
        return self.secs[k]

    def method(self, ev, name, args, kw, env):
        if name == "read":
            fn = args[0] if args else kw.get("filenames")
            ps = ev.concrete(fn) if isinstance(fn, (vn.Seq, vn.IterV)) else [fn]
            done = []
            for p in ps:
                f = self.files.get(Path_.of(p).parts_)
                if f is None:
                    continue
                for s, d in f.items():
                    if any(v is None for v in d.values()) and not self.novalue:
                        raise vn.PyRaise("ParsingError")
                    sec = self.secs.setdefault(s, Section(self, s, {}))
                    for k, v in d.items():
                        sec.d[sec.opt(k)] = v
                done.append(p)
            return vn.Seq(done, "list")
        if name == "sections":
            return vn.Seq(list(self.secs), "list")
        if name == "has_section":
            return args[0] in self.secs
        if name == "has_option":
            return args[0] in self.secs and self.secs[args[0]].contains(ev, args[1])
        if name in ("get", "getint", "getfloat", "getboolean") and len(args) >= 2:
            sec = self.secs.get(args[0])
            if sec is None or not sec.contains(ev, args[1]):
                if "fallback" in kw:
                    return kw["fallback"]
                raise vn.PyRaise("NoSectionError" if sec is None else "NoOptionError")
            return sec.method(ev, name, [args[1]], {}, env)
        if name == "set" and len(args) == 3:
            return self.item(ev, args[0]).setitem(ev, args[1], args[2], env)
        if name == "items" and len(args) == 1:
            return self.item(ev, args[0]).method(ev, "items", [], {}, env)
        if name == "write" and args and isinstance(args[0], File):
            self.files[args[0].path] = {s: dict(x.d) for s, x in self.secs.items()}
            return None
        if name in ("items", "values", "keys") and not args:
            return ev.apply(vn.BoundM(self.as_dict(), name), [], {}, ev.node, env)
        if name == "_convert_to_boolean":
            return convert("bool", args[0])
        return NotImplemented


class File(vn.ModelObj):
    def __init__(self, path):
        self.path = path

    def key(self):
        return f"<file {'/'.join(self.path)}>"

    def method(self, ev, name, args, kw, env):
        if name == "close":
            return None
        return NotImplemented


class ModuleV(vn.ModelObj):
    """an imported module: all its attributes are classes"""

    def __init__(self, spec, ev):
        self.spec, self.ev = spec, ev

    def key(self):
        return f"<module {vn.key(self.spec)}>"

    def attr(self, ev, name, env):
        def make(e, a, k):
            r = Thing(f"processing class {len(self.ev.made)}", preprocess=Fn2(None), reader=Fn2(None), exceptfunc=Fn2(None))
            self.ev.made.append((self.spec.path.parts_, name, {**k, **({"*": vn.Seq(a)} if a else {})}, r))
            return r

        return NotImplemented if name.startswith("__") else Fn2(make)


class Parsing(Pandas):
    """evaluator with config files"""

    atomic = (*Dunder.atomic, "Fits", "MultiFits")

    def __init__(self, P, files):
        super().__init__(P)
        self.files, self.fits, self.imported, self.exist = files, [], [], set(files)
        E = self.ext
        E["configparser.ConfigParser"] = lambda ev, a, k: Config(self.files, a, k)
        E["configparser.ExtendedInterpolation"] = lambda ev, a, k: Thing("ExtendedInterpolation()")
        E["configparser.BasicInterpolation"] = lambda ev, a, k: Thing("BasicInterpolation()")
        E["builtins.float"] = lambda ev, a, k: convert("float", a[0]) if isinstance(a[0], (str, Conv)) else ev.ext_plain("builtins.float", a, k)
        E["builtins.int"] = lambda ev, a, k: convert("int", a[0]) if isinstance(a[0], (str, Conv)) else ev.ext_plain("builtins.int", a, k)
        E["datetime.datetime.strptime"] = lambda ev, a, k: Conv("date", *a)
        E["pathlib.Path"] = lambda ev, a, k: Path_.of(a[0]) if a and Path_.of(a[0]) is not None else ev.unknown("Path")
        E["importlib.util.spec_from_file_location"] = self.spec
        E["importlib.util.module_from_spec"] = lambda ev, a, k: ModuleV(a[0], self)
        E["multiprocessing.current_process"] = lambda ev, a, k: Thing("process", name=self.process)
        E["builtins.open"] = self.open_
        E["shutil.copy"] = E["shutil.copyfile"] = E["shutil.copy2"] = self.copy
        E["builtins.hasattr"] = self.has
        self.made, self.process, self.asked = [], "MainProcess", []
        self.opaque["rtprocess._confirm_input"] = lambda ev, s, b, x: self.asked.append(1)
        self.opaque["rtprocess._make_folderstructure"] = lambda ev, s, b, x: None
        E["builtins.str"] = self.text_of

    @staticmethod
    def text_of(ev, a, k):
        if a and isinstance(a[0], Path_):
            return "/".join(a[0].parts_)
        if a and isinstance(a[0], Conv):
            return f"str({a[0].key()})"
        return Dunder.text(ev, a, k)

    def exists(self, p, how):
        return p.parts_ in self.exist or p.parts_ in self.files

    @staticmethod
    def has(ev, a, k):
        if isinstance(a[0], ModuleV):
            return True
        return Pandas.has(ev, a, k)

    @staticmethod
    def open_(ev, a, k):
        b = bind(a, k, "file", "mode")
        p = Path_.of(b.get("file"))
        if p is None or b.get("mode") not in ("w", "w+", "wt"):
            return ev.unknown("open")
        return File(p.parts_)

    def open(self, *a, **k):
        return self.open_(self, list(a), k)

    @staticmethod
    def copy(ev, a, k):
        b = bind(a, k, "src", "dst")
        p, q = Path_.of(b["src"]).parts_, Path_.of(b["dst"]).parts_
        if "." not in q[-1]:
            q = (*q, p[-1])
        if p in ev.files:
            ev.files[q] = {s: dict(x) for s, x in ev.files[p].items()}
        ev.exist.add(q)
        return Path_(q)

    @staticmethod
    def spec(ev, a, k):
        b = bind(a, k, "name", "location")
        return Spec(b.get("name"), Path_.of(b.get("location")), ev)

    def apply(self, f, args, kw, node, env):
        if isinstance(f, vn.ClassV) and f.cls.name in ("Fits", "MultiFits"):
            r = Fit(f.cls.name, self.P.find_method(f.cls, "__init__"), args, kw, self)
            self.fits.append(r)
            return r
        return super().apply(f, args, kw, node, env)


class Spec(vn.ModelObj):
    """the specification of a module and its loader"""

    def __init__(self, name, path, ev):
        self.name_, self.path, self.ev = name, path, ev

    def key(self):
        return f"<spec {vn.key(self.path)}>"

    @property
    def name(self):
        return self.key()

    def attr(self, ev, name, env):
        if name == "name":
            return self.name_
        if name == "loader":
            return Thing("loader", exec_module=Fn2(lambda e, a, k: self.ev.imported.append((self.path.parts_, a[0] if a else k.get("module")))))
        if name == "origin":
            return "/".join(self.path.parts_)
        return NotImplemented


class Fit(vn.ModelObj):
    """a fit object and how it has been made"""

    def __init__(self, cls, init, args, kw, ev):
        self.cls, self.configs = cls, []
        names = [p for p in init.params()[1:]] if init is not None else []
        self.args = {**dict(zip(names, args)), **kw}

    def key(self):
        return f"<{self.cls}>"

    def method(self, ev, name, args, kw, env):
        if self.cls == "MultiFits" and name == "add_config":
            b = bind(args, kw, "name", "fit_object")
            self.configs.append((b.get("name"), b.get("fit_object")))
            return None
        return NotImplemented


def text(v):
    """structure of a parsed value"""
    if isinstance(v, vn.DictV):
        return {k: text(x) for k, x in v.d.items()}
    if isinstance(v, (vn.Seq, vn.IterV)):
        return [text(x) for x in v.items]
    if isinstance(v, Path_):
        return ("path", "/".join(v.parts_))
    if isinstance(v, Conv):
        return v.key()
    if v is None or isinstance(v, (bool, str)):
        return v if not isinstance(v, str) else ("text", v)
    if isinstance(v, (vn.Unknown, vn.Ite, vn.Cond)):
        return ("?", vn.key(v))
    return vn.key(v)


def unsure(t):
    if isinstance(t, dict):
        return any(unsure(x) for x in t.values())
    if isinstance(t, (list, tuple)):
        return t[:1] == ("?",) or any(unsure(x) for x in t)
    return False


BASE = {
    "PROCESS_SPECS": {"path__save_path": "save/here", "dumpfolder": "dump1"},
    "CONFIGFILES": {"module__processing_cfg": "mods/proc.py", "module__other": " mods/other.py ", "copy": "x"},
    "fits_kwargs": {"sig0": "b1", "dB": "b2", "int_Q": "b3", "verbose": "n1"},
    "least_squares_kwargs": {"verbose": "n2", "max_nfev": "n3", "ftol": "n4", "gtol": "n5", "xtol": "n6", "method": "trf", "jac": "None", "Loss": "wL"},
    "defdict": {
        "tau": "[True, n10, None, n11, n12]",
        "omega": "[False, n13]",
        "N": "[True, n14, 3D, n15, n16, True]",
        "sand": "[False, auxiliary]",
        "v2": "[True,n17,manual,n18,n19,False]",
        "clay": "[True, auxiliary, 2W, n20, n21]",
    },
    "RT1_V": {"V_name": "HenyeyGreenstein", "tau": "tau", "omega": "n30", "t": "t", "ncoefs": "n31"},
    "RT1_SRF": {"SRF_name": "HG", "a": "[n32, n33,n34]", "NormBRDF": "N", "ncoefs": "n35"},
}

WANT = {
    "lsq_kwargs": {"verbose": "int<n2>", "max_nfev": "int<n3>", "ftol": "float<n4>", "gtol": "float<n5>", "xtol": "float<n6>", "method": ("text", "trf"), "jac": None, "Loss": ("text", "wL")},
    "fits_kwargs": {"sig0": "bool<b1>", "dB": "bool<b2>", "int_Q": "bool<b3>", "verbose": "int<n1>"},
    "defdict": {
        "tau": [True, "float<n10>", None, [["float<n11>"], ["float<n12>"]], False],
        "omega": [False, "float<n13>"],
        "N": [True, "float<n14>", ("text", "3D"), [["float<n15>"], ["float<n16>"]], True],
        "sand": [False, ("text", "auxiliary")],
        "v2": [True, "float<n17>", ("text", "manual"), [["float<n18>"], ["float<n19>"]], False],
        "clay": [True, ("text", "auxiliary"), ("text", "2W"), [["float<n20>"], ["float<n21>"]], False],
    },
    "set_V_SRF": {
        "V_props": {"V_name": ("text", "HenyeyGreenstein"), "tau": ("text", "tau"), "omega": "float<n30>", "t": ("text", "t"), "ncoefs": "int<n31>"},
        "SRF_props": {"SRF_name": ("text", "HG"), "a": ["float<n32>", "float<n33>", "float<n34>"], "NormBRDF": ("text", "N"), "ncoefs": "int<n35>"},
    },
}


def ini(**over):
    """the file with sections added or (entry-wise) changed"""
    d = {s: dict(x) for s, x in BASE.items()}
    for s, x in over.items():
        s = s.replace("__cfg_", "#config ").replace("_OF_", " ")
        d[s] = {**d.get(s, {}), **x}
    return d


def merged(base, over):
    return {k: merged(base[k], over[k]) if k in over and isinstance(base.get(k), dict) and isinstance(over[k], dict) and k in ("lsq_kwargs", "fits_kwargs", "defdict", "set_V_SRF", "V_props", "SRF_props") else over.get(k, base.get(k)) for k in [*base, *[k for k in over if k not in base]]}


CONFIGS = {
    "#config cz least_squares_kwargs": {"ftol": "n44", "loss": "wX", "method": "None"},
    "#config cz fits_kwargs": {"dB": "b42", "verbose": "n41"},
    "#config cz defdict": {"omega": "[True, n43, None, n45, n46]", "fresh": "[False, n47]"},
    "#config cz RT1_V": {"omega": "om2", "ncoefs": "n48"},
    "#config ca RT1_SRF": {"a": "[n51,n52,n53]", "SRF_name": "HG2"},
    "#config ca defdict": {"tau": "[False, n54]"},
    "#config empty": {},
}
OVER = {
    "cz": {
        "lsq_kwargs": {"ftol": "float<n44>", "loss": ("text", "wX"), "method": None},
        "fits_kwargs": {"dB": "bool<b42>", "verbose": "int<n41>"},
        "defdict": {"omega": [True, "float<n43>", None, [["float<n45>"], ["float<n46>"]], False], "fresh": [False, "float<n47>"]},
        "set_V_SRF": {"V_props": {"omega": ("text", "om2"), "ncoefs": "int<n48>"}},
    },
    "ca": {
        "set_V_SRF": {"SRF_props": {"a": ["float<n51>", "float<n52>", "float<n53>"], "SRF_name": ("text", "HG2")}},
        "defdict": {"tau": [False, "float<n54>"]},
    },
    "empty": {},
}

# name, text, what is parsed
SPECS = [
    ("int__a", "n1", ("a", "int<n1>")), ("float__b", "n2", ("b", "float<n2>")), ("bool__c", "b3", ("c", "bool<b3>")),
    ("path__d", " some/path ", ("d", ("path", "some/path"))), ("path__up", "../up/path", ("up", ("path", "../up/path"))),
    ("datetime__e", "1.1.2018 fmt=%d.%m.%Y", ("e", "date<1.1.2018,%d.%m.%Y>")), ("datetime__e2", "1.1.2018   fmt= %d.%m.%Y ", ("e2", "date<1.1.2018,%d.%m.%Y>")),
    ("datetime__f", "2018-01-01", ("f", "date<2018-01-01,%Y-%m-%d %H:%M:%S.%f>")),
    ("list__g", "[x1, y 2 ,z]", ("g", [("text", "x1"), ("text", "y 2"), ("text", "z")])), ("list__one", "[x1]", ("one", [("text", "x1")])),
    ("list__float__h", "[n1, n2]", ("h", ["float<n1>", "float<n2>"])), ("list__int__i", "[n1,n2]", ("i", ["int<n1>", "int<n2>"])), ("list__bool__j", "[b1, b2]", ("j", ["bool<b1>", "bool<b2>"])),
    ("list__datetime__k", "[1.1.2018, 1.10.2018] fmt= %d.%m.%Y", ("k", ["date<1.1.2018,%d.%m.%Y>", "date<1.10.2018,%d.%m.%Y>"])),
    ("list__datetime__l", "[2018-01-01, 2018-02-01]", ("l", ["date<2018-01-01,%Y-%m-%d %H:%M:%S.%f>", "date<2018-02-01,%Y-%m-%d %H:%M:%S.%f>"])),
    ("plain", "some text", ("plain", ("text", "some text"))), ("nothing", "None", ("nothing", None)), ("empty", None, ("empty", None)), ("CamelCase", "n7", ("CamelCase", ("text", "n7"))),
    ("ref", "${dumpfolder}/${fits_kwargs:verbose}", ("ref", ("text", "dump1/n1"))), ("path__ref2", "${path__save_path}/sub", ("ref2", ("path", "save/here/sub"))),
    ("int_x", "n1", ("int_x", ("text", "n1"))), ("xint__y", "n8", ("xint__y", ("text", "n8"))),
]


def tried(rep, tag, where, go):
    try:
        go()
    except vn.PyRaise as e:
        rep.check(False, tag, f"raises {e.kind}", where)
    except (TooMany, vn.Undecided) as e:
        rep.check(None, tag, str(e), where)


def same(rep, key, got, want, where):
    g = text(got)
    rep.check(None if unsure(g) else g == want, key, f"{show(g, 200)} expected {show(want, 200)}" if g != want else show(g, 200), where)


def each(rep, key, got, want, where):
    """entries of a dictionary, one by one"""
    if not isinstance(got, vn.DictV):
        same(rep, key, got, want, where)
        return
    for k in want:
        if isinstance(want[k], dict) and k in got.d:
            each(rep, f"{key}:{k}", got.d[k], want[k], where)
        elif k not in got.d:
            rep.check(False, f"{key}:{k}", "missing", where)
        else:
            same(rep, f"{key}:{k}", got.d[k], want[k], where)
    extra = [k for k in got.d if k not in want]
    rep.check(not extra, f"{key}:entries", f"unexpected: {extra}" if extra else f"{len(want)} entries", where)


def parser(P, content):
    ev = Parsing(P, {("p", "c.ini"): content})
    o = new(ev, "RT1_configparser", {"configpath": "p/c.ini"})
    return ev, o


def p_parser(P, rep):
    c = P.cls("RT1_configparser")
    F = {n: P.find_method(c, n) for n in ("get_config", "get_process_specs", "get_fitobject", "get_module", "get_all_modules", "__init__")}
    for n, f in F.items():
        if f is None:
            raise AnalysisBroken(f"RT1_configparser.{n} is gone")
    W = {n: f"{f.file}:{f.lineno} {f.qual}" for n, f in F.items()}

    def done(ev, tag, where):
        rep.analysed |= ev.visited
        if ev.unsure:
            rep.undecided(tag, f"left open {ev.unsure[:3]}", where)

    # ---- process specs
    def specs():
        ev, o = parser(P, ini(PROCESS_SPECS={k: v for k, v, _ in SPECS}))
        r = call(ev, o, "get_process_specs")
        want = {"save_path": ("path", "save/here"), "dumpfolder": ("text", "dump1"), **dict(w for _, _, w in SPECS)}
        each(rep, "specs", r, want, W["get_process_specs"])
        done(ev, "specs", W["get_process_specs"])

    tried(rep, "specs", W["get_process_specs"], specs)

    for k, v in (("list__x", "a, b"), ("int__x", "word"), ("float__x", "word"), ("bool__x", "word"), ("list__int__x", "[n1, word]")):
        def bad(k=k, v=v):
            ev, o = parser(P, ini(PROCESS_SPECS={k: v}))
            try:
                r = call(ev, o, "get_process_specs")
                rep.check(None if unsure(text(r)) else False, f"specs:invalid {k}", "accepted", W["get_process_specs"])
            except vn.PyRaise as e:
                rep.check(True, f"specs:invalid {k}", f"rejected ({e.kind})", W["get_process_specs"])

        tried(rep, f"specs:invalid {k}", W["get_process_specs"], bad)

    # ---- model definitions
    def base():
        ev, o = parser(P, ini(**CONFIGS))
        each(rep, "config", call(ev, o, "get_config"), WANT, W["get_config"])
        for n in ("cz", "ca", "empty", "cz", "unknown"):
            each(rep, f"config:{n}", call(ev, o, "get_config", [n]), merged(WANT, OVER.get(n, {})), W["get_config"])
        each(rep, "config:again", call(ev, o, "get_config"), WANT, W["get_config"])
        done(ev, "config", W["get_config"])

    tried(rep, "config", W["get_config"], base)

    def lincomb():
        ev, o = parser(P, {**ini(), "RT1_V": {"V_name": "LinCombV", "tau": "tau", "omega": "n30", "a__frac": "q", "A__V_name": "Rayleigh", "A__tau": "t1", "A__omega": "n60", "A__frac": "n61",
                                              "B__V_name": "HG", "B__frac": "f2", "B__ncoefs": "n62", "B__a": "[n63,n64,n65]"},
                           "RT1_SRF": {"SRF_name": "LinCombSRF", "NormBRDF": "n66", "X__frac": "n67", "X__SRF_name": "Iso", "Y__SRF_name": "CosLobe", "Y__i": "n68"}})
        want = {"V_props": {"V_name": ("text", "LinCombV"), "tau": ("text", "tau"), "omega": "float<n30>", "a__frac": ("text", "q"),
                            "Vchoices": [["float<n61>", {"V_name": ("text", "Rayleigh"), "tau": ("text", "t1"), "omega": "float<n60>"}],
                                         [("text", "f2"), {"V_name": ("text", "HG"), "ncoefs": "int<n62>", "a": ["float<n63>", "float<n64>", "float<n65>"]}]]},
                "SRF_props": {"SRF_name": ("text", "LinCombSRF"), "NormBRDF": "float<n66>",
                              "SRFchoices": [["float<n67>", {"SRF_name": ("text", "Iso")}], ["1", {"SRF_name": ("text", "CosLobe"), "i": "float<n68>"}]]}}
        r = call(ev, o, "get_config")
        each(rep, "combination", r.d["set_V_SRF"], want, W["get_config"])
        done(ev, "combination", W["get_config"])

    tried(rep, "combination", W["get_config"], lincomb)

    def lincomb_over():
        content = {**ini(), "RT1_V": {"V_name": "LinCombV", "tau": "tau", "omega": "n30", "A__V_name": "Rayleigh", "A__frac": "n61", "B__V_name": "HG", "B__frac": "f2", "B__t": "n62"},
                   "RT1_SRF": {"SRF_name": "LinCombSRF", "NormBRDF": "n66", "X__frac": "n67", "X__SRF_name": "Iso", "Y__SRF_name": "CosLobe", "Y__i": "n68"},
                   "#config c1 RT1_V": {"B__t": "n71", "omega": "n72", "A__frac": "f3"}, "#config c1 RT1_SRF": {"Y__i": "y", "X__SRF_name": "HG"},
                   "#config c2 RT1_SRF": {"SRF_name": "HG", "t": "n73"}, "#config c3 fits_kwargs": {"verbose": "n74"}}
        ev, o = parser(P, content)
        v = {"V_name": ("text", "LinCombV"), "tau": ("text", "tau"), "omega": "float<n30>", "Vchoices": [["float<n61>", {"V_name": ("text", "Rayleigh")}], [("text", "f2"), {"V_name": ("text", "HG"), "t": "float<n62>"}]]}
        s = {"SRF_name": ("text", "LinCombSRF"), "NormBRDF": "float<n66>", "SRFchoices": [["float<n67>", {"SRF_name": ("text", "Iso")}], ["1", {"SRF_name": ("text", "CosLobe"), "i": "float<n68>"}]]}
        v1 = {**v, "omega": "float<n72>", "Vchoices": [[("text", "f3"), {"V_name": ("text", "Rayleigh")}], [("text", "f2"), {"V_name": ("text", "HG"), "t": "float<n71>"}]]}
        s1 = {**s, "SRFchoices": [["float<n67>", {"SRF_name": ("text", "HG")}], ["1", {"SRF_name": ("text", "CosLobe"), "i": ("text", "y")}]]}
        for name, wv, ws in (("c1", v1, s1), ("c2", v, None), ("c3", v, s), (None, v, s)):
            r = call(ev, o, "get_config", [name])
            each(rep, f"combination:config {name}:V", r.d["set_V_SRF"].d["V_props"], wv, W["get_config"])
            if ws is not None:
                each(rep, f"combination:config {name}:SRF", r.d["set_V_SRF"].d["SRF_props"], ws, W["get_config"])
            else:
                x = r.d["set_V_SRF"].d["SRF_props"].d
                rep.check({k: text(x.get(k)) for k in ("SRF_name", "NormBRDF", "t")} == {"SRF_name": ("text", "HG"), "NormBRDF": "float<n66>", "t": "float<n73>"},
                          f"combination:config {name}:SRF", f"{text(r.d['set_V_SRF'].d['SRF_props'])}", W["get_config"])
        done(ev, "combination:configs", W["get_config"])

    tried(rep, "combination:configs", W["get_config"], lincomb_over)

    # ---- fit objects
    def fit(tag, content, want):
        def go():
            ev, o = parser(P, content)
            r = call(ev, o, "get_fitobject")
            w = W["get_fitobject"]
            if not isinstance(r, Fit):
                rep.check(None, tag, f"is {vn.key(r)}", w)
                return
            rep.check(r.cls == ("MultiFits" if isinstance(want, dict) else "Fits"), f"{tag}:class", r.cls, w)
            if isinstance(want, dict):
                names = sorted(str(n) for n, _ in r.configs)
                rep.check(names == sorted(want), f"{tag}:configs", f"{names}", w)
                fits = [(f"{tag}:{n}", f, want.get(n)) for n, f in r.configs]
            else:
                fits = [(tag, r, WANT)]
            for t, f, x in fits:
                if x is None or not isinstance(f, Fit):
                    continue
                args = dict(f.args)
                rep.check(args.pop("dataset", None) is None, f"{t}:dataset", "no dataset", w)
                each(rep, t, vn.DictV(args), {**x["fits_kwargs"], **{k: x[k] for k in ("defdict", "set_V_SRF", "lsq_kwargs")}}, w)
            done(ev, tag, w)

        tried(rep, tag, W["get_fitobject"], go)

    fit("fit", ini(), None)
    fit("fit:configs", ini(**CONFIGS), {n: merged(WANT, x) for n, x in OVER.items()})

    # ---- modules
    def modules(copy):
        def go():
            ev, o = parser(P, ini())
            ev.exist |= {("save", "here", "dump1", "cfg", n) for n in ("proc.py", "other.py")}
            at = ("save", "here", "dump1", "cfg") if copy else ("mods",)
            for n, f in (("processing_cfg", "proc.py"), ("other", "other.py")):
                ev.imported.clear()
                r = call(ev, o, "get_module", [n], {"load_copy": copy})
                got = [(p, m is r) for p, m in ev.imported]
                rep.check(got == [((*at, f), True)], f"module:{n}:copy={copy}", f"imported {got}", W["get_module"])
            ev.imported.clear()
            r = call(ev, o, "get_all_modules", [], {"load_copy": copy})
            got = {n: [p for p, m in ev.imported if m is x] for n, x in r.d.items()}
            rep.check(got == {"processing_cfg": [(*at, "proc.py")], "other": [(*at, "other.py")]}, f"modules:copy={copy}", f"{got}", W["get_all_modules"])
            try:
                call(ev, o, "get_module", ["undefined"], {"load_copy": copy})
                rep.check(False, f"module:undefined:copy={copy}", "accepted", W["get_module"])
            except vn.PyRaise:
                rep.check(True, f"module:undefined:copy={copy}", "rejected", W["get_module"])
            done(ev, f"modules:copy={copy}", W["get_module"])

        tried(rep, f"modules:copy={copy}", W["get_module"], go)

    modules(False)
    modules(True)


# ------------------------------------------------------------------ overrides
def with_(content, *overs):
    d = {s: dict(x) for s, x in content.items()}
    for o in overs:
        for s, x in o.items():
            d[s].update({k: str(v) for k, v in x.items()})
    return d


def D(d):
    return vn.DictV({k: vn.DictV(dict(x)) for k, x in d.items()})


A = {"PROCESS_SPECS": {"int__n": "n81", "path__save_path": "save/there", "fresh": "x1", "dumpfolder": "dump9", "MixedCase": "x2"}, "fits_kwargs": {"sig0": "b82"}, "defdict": {"omega": "[False, n83]"}}
B = {"fits_kwargs": {"sig0": "b91", "verbose": 92}, "RT1_V": {"omega": "n93"}, "CONFIGFILES": {"module__processing_cfg": "mods/proc2.py"}, "PROCESS_SPECS": {"int__n": "n94"}}
C = {"fits_kwargs": {"sig0": "b71", "verbose": "72"}, "RT1_SRF": {"NormBRDF": "n73"}}


def p_override(P, rep):
    c = P.cls("RTprocess")
    f, g = P.find_method(c, "setup"), P.find_method(c, "override_config")
    if f is None or g is None:
        raise AnalysisBroken("RTprocess.setup / override_config is gone")
    ws, wo = f"{f.file}:{f.lineno} {f.qual}", f"{g.file}:{g.lineno} {g.qual}"

    def effect(tag, ev, o, content, copy):
        """the configuration that is in effect after setup() is the given one"""
        got_fit, got_cls = get(ev, o, "parent_fit"), get(ev, o, "proc_cls")
        made = next(((p, n, k) for p, n, k, r in ev.made if r is got_cls), None)
        if not isinstance(got_fit, Fit) or made is None:
            rep.check(None, tag, f"parent_fit {vn.key(got_fit)} proc_cls {vn.key(got_cls)}", ws)
            return
        ev2, ref = parser(P, content)
        ref_fit = call(ev2, ref, "get_fitobject")
        same(rep, f"{tag}:parent_fit", vn.DictV(got_fit.args), text(vn.DictV(ref_fit.args)), ws)
        specs = call(ev2, ref, "get_process_specs")
        same(rep, f"{tag}:proc_cls", vn.DictV(made[2]), text(specs), ws)
        dump = specs.d["save_path"].parts_ + (specs.d["dumpfolder"],)
        mod = Path_.of(content["CONFIGFILES"]["module__" + content["CONFIGFILES"].get("processing_cfg_module", "processing_cfg")].strip()).parts_
        mod = (*dump, "cfg", mod[-1]) if copy else mod
        rep.check(made[0] == mod, f"{tag}:module", f"{made[0]} expected {mod}", ws)
        rep.check(made[1] == content["PROCESS_SPECS"].get("processing_cfg_class", "processing_cfg"), f"{tag}:class", f"{made[1]}", ws)
        same(rep, f"{tag}:dumppath", get(ev, o, "dumppath"), ("path", "/".join(dump)), ws)
        Pandas.last = ev

    def scene(tag, start, steps, want, content=None, given=(), present=None):
        def go(copy):
            t = f"{tag}:copy={copy}"
            ev = Parsing(P, {("p", "c.ini"): content or ini(), **(present or {})})
            kw = {n: Thing(f"given {n}", preprocess=1, reader=1, exceptfunc=1) for n in given}
            first = D(start) if start is not None else None
            before = text(first) if first is not None else None
            o = new(ev, "RTprocess", {"config_path": "p/c.ini", "copy": copy, "autocontinue": True, **({"init_kwargs": first} if first is not None else {}), **kw})
            for args, opts in steps:
                a = D(args)
                b4 = text(a)
                call(ev, o, "override_config", [], {**opts, **a.d})
                rep.check(text(a) == b4, f"{t}:arguments", "the given definitions stay as they are", wo)
            ev.imported.clear()
            call(ev, o, "setup")
            expect = with_(content or ini(), *want)
            if given:
                for n in given:
                    rep.check(get(ev, o, n) is kw[n], f"{t}:{n}", "the given one is used", ws)
            else:
                effect(f"{t}:main", ev, o, expect, copy)
                # (another process sets up the same)
                ev.process = "Worker-1"
                ev.made.clear()
                call(ev, o, "setup")
                effect(f"{t}:worker", ev, o, expect, copy)
            if first is not None:
                rep.check(text(first) == before, f"{t}:init_kwargs", "the given init_kwargs stay as they are", ws)
            rep.analysed |= ev.visited
            if ev.unsure:
                rep.undecided(t, f"left open {ev.unsure[:3]}", ws)

        for copy in (False, True):
            tried(rep, f"{tag}:copy={copy}", ws, lambda: go(copy))

    scene("setup:file", None, [], [])
    scene("setup:init_kwargs", A, [], [A])
    scene("setup:override", A, [(B, {})], [B])
    scene("setup:override=True", A, [(B, {"override": True})], [B])
    scene("setup:update", A, [(B, {"override": False})], [A, B])
    scene("setup:override only", None, [(B, {})], [B])
    scene("setup:update only", None, [(B, {"override": False})], [B])
    scene("setup:two updates", None, [(A, {}), (B, {"override": False})], [A, B])
    scene("setup:update, override", C, [(A, {"override": False}), (A, {})], [A])
    scene("setup:reset", A, [({}, {})], [])
    scene("setup:names", None, [], [], content=ini(PROCESS_SPECS={"processing_cfg_module": "other", "processing_cfg_class": "MyClass"}, CONFIGFILES={"processing_cfg_module": "other"}) | {})
    scene("setup:module name", None, [], [], content=ini(PROCESS_SPECS={"processing_cfg_module": "other"}, CONFIGFILES={"processing_cfg_module": "other"}))
    scene("setup:class name", None, [], [], content=ini(PROCESS_SPECS={"processing_cfg_class": "MyClass"}))
    # (an earlier run has left its configuration in the folder)
    left = {("save", "there", "dump9", "cfg", "c.ini"): ini(fits_kwargs={"sig0": "b66"})}
    scene("setup:earlier copy", A, [], [A], present=left)
    scene("setup:earlier copy, update", None, [(A, {}), (C, {"override": False})], [A, C], present=left)
    scene("setup:given class", A, [], [A], given=("proc_cls", "parent_fit"))

    def unknown_section(how):
        def go():
            ev = Parsing(P, {("p", "c.ini"): ini()})
            bad = D({"missing": {"a": "n1"}})
            try:
                o = new(ev, "RTprocess", {"config_path": "p/c.ini", "copy": False, "autocontinue": True, **({"init_kwargs": bad} if how == "init_kwargs" else {})})
                if how != "init_kwargs":
                    call(ev, o, "override_config", [], {"override": how == "override", **bad.d})
                call(ev, o, "setup")
                rep.check(False, f"setup:unknown section:{how}", "accepted", ws)
            except vn.PyRaise as e:
                rep.check(True, f"setup:unknown section:{how}", f"rejected ({e.kind})", ws)

        tried(rep, f"setup:unknown section:{how}", ws, go)

    for how in ("init_kwargs", "override", "update"):
        unknown_section(how)


def p12(P, tier):
    rep = Careful("P12", tier, "The parser is evaluated over config files whose values are symbolic texts (numerals, booleans, words) of all documented kinds; every parsed entry must be the documented "
                  "conversion of the text that stands at this place of the file, for the defaults and for every config with its overriding sections; fit objects and modules are created from exactly these; "
                  "init_kwargs and override_config are evaluated on top of the file.")
    p_parser(P, rep)
    p_override(P, rep)
    return rep


CHECKS = {"P12": p12}
