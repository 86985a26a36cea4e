"""Abstract interpreter for the Python of the analysed package.

The package is never imported or run.  Its source is parsed on every run, module bodies are
evaluated abstractly (constant propagation gives the declared schema objects) and functions
are analysed path-sensitively and interprocedurally over the abstract values of values.py.
Every branch on an undetermined fact splits the analysis; facts of a path keep later branches
on the same fact consistent.  No constraint solver is involved: facts are kinds, equality with
constants, orderings and boolean atoms.
"""
import time
import ast
import os
import builtins as _b

from .values import *
from . import values as V

BT = {n: BType(n) for n in (
    "str", "int", "float", "bool", "list", "dict", "set", "tuple", "bytes", "type", "object",
    "NoneType", "datetime", "frozenset", "property", "function", "bytearray", "complex", "range")}
KIND_OF_BT = {"str": {"str"}, "int": {"int", "bool"}, "float": {"float"}, "bool": {"bool"},
              "list": {"list"}, "dict": {"dict"}, "NoneType": {"none"}, "datetime": {"datetime"}}
EXACT_KIND = {"str": "str", "int": "int", "float": "float", "bool": "bool", "list": "list",
              "dict": "dict", "NoneType": "none", "datetime": "datetime"}
BT_OF_KIND = {v: k for k, v in EXACT_KIND.items()}
TYPING = {"Dict": "dict", "List": "list", "Tuple": "tuple", "Set": "set", "FrozenSet": "frozenset",
          "Text": "str", "DefaultDict": "dict"}

EXC_NAMES = [n for n in dir(_b) if isinstance(getattr(_b, n), type)
             and issubclass(getattr(_b, n), BaseException)]
SCALAR = (type(None), bool, int, float, str, bytes)
ITEM_METHODS_STR_PURE = {
    "lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize", "replace",
    "swapcase", "removeprefix", "removesuffix", "zfill", "join", "format", "encode"}


def is_scalar(v):
    return isinstance(v, SCALAR)


class Run:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.intern = {}
        self.byop = {}
        self.kinds = {}
        self.truth = {}
        self.eqc = {}
        self.neqc = {}
        self.dom = {}
        self.alias = {}
        self.order = []       # (a, b, strict): a < b or a <= b
        self.neq = set()
        self.mat = {}
        self.has = {}
        self.isx = {}
        self.tokfacts = {}
        self.soft = []
        self.notes = []
        self.events = []
        self.effects = []
        self.touched = {}
        self.steps = 0
        self.depth = 0
        self.frames = []
        self.cur = None
        self.n = 0
        self.funcs = set()
        self.restlen = {}
        self.branches = set()
        self.shapes = ("empty", "focus")
        self.labels = {}
        self.visited_lines = set()


class Interp:
    MAX_STEPS = 400000
    MAX_DEPTH = 70

    def __init__(self, root="/repo", pkg="src"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.serial = 0
        self.overrides = {}       # function qualname -> python callable(interp, args, kw, self_)
        self.cls_overrides = {}   # class qualname -> python callable(interp, args, kw)
        self.native_issues = True
        self.native_cont = True
        self.R = Run([])
        self.exc_cls = {}
        for n in EXC_NAMES:
            self._exc(n)
        self.analysed_functions = set()
        self.analysed_modules = set()
        self.total_steps = 0
        self.deadline = None
        self._gs = {}

    # ------------------------------------------------------------------ setup
    def _exc(self, n):
        if n not in self.exc_cls:
            t = getattr(_b, n)
            bases = [self._exc(b.__name__) for b in t.__bases__ if b is not object]
            c = ACls(n, "builtins:" + n, bases, {}, 0)
            c.kind = "exc"
            self.exc_cls[n] = c
        return self.exc_cls[n]

    def module(self, name):
        if name in self.mods:
            m = self.mods[name]
        else:
            p = os.path.join(self.root, *name.split("."))
            if os.path.isdir(p):
                path = os.path.join(p, "__init__.py")
                src = open(path).read() if os.path.exists(path) else ""
            else:
                path = p + ".py"
                if not os.path.exists(path):
                    return None
                src = open(path).read()
            m = AMod(name, path, ast.parse(src, path))
            self.mods[name] = m
            self.analysed_modules.add(name)
        if m.state == 0:
            m.state = 1
            saved = self.serial
            self.serial = 0
            env = Env(None, m)
            env.vars = m.vars
            m.vars["__name__"] = name
            R = self.R
            fr = R.frames
            R.frames = []
            try:
                self.exec_block(m.tree.body, env)
            except AbsRaise as e:
                raise Inconclusive(f"import of {name} raises {self.exc_name(e)} at {e.where}")
            finally:
                R.frames = fr
                self.serial = saved
            m.state = 2
        return m

    def lookup(self, dotted):
        """'src.error:ValidationIssues.merge' -> value (raises KeyError if it is gone)."""
        mod, _, path = dotted.partition(":")
        m = self.module(mod)
        if m is None:
            raise KeyError(dotted)
        v = None
        for i, part in enumerate(path.split(".")):
            if i == 0:
                if part not in m.vars:
                    raise KeyError(dotted)
                v = m.vars[part]
            else:
                x, _ = v.lookup(part)
                if x is None:
                    raise KeyError(dotted)
                v = x
        return v

    @staticmethod
    def lookup_builtin(n):
        return BT[n]

    @property
    def Invalid(self):
        if "Invalid" not in self._gs:
            self._gs["Invalid"] = self.lookup("src.data.container:Invalid")
        return self._gs["Invalid"]

    @property
    def Missing(self):
        if "Missing" not in self._gs:
            self._gs["Missing"] = self.lookup("src.data.container:Missing")
        return self._gs["Missing"]

    def gs(self, dotted):
        if dotted not in self._gs:
            self._gs[dotted] = self.lookup(dotted)
        return self._gs[dotted]

    # ------------------------------------------------------------------ exploration
    def explore(self, thunk, max_paths=20000, shapes=None, claim=None):
        """Enumerate every path of `thunk` (a Python callable driving the interpreter).
        Yields (run, outcome, value): outcome in {'ok','raise','inconclusive'}.
        claim: callable giving the options of the first split this process is to explore."""
        prefix = []
        n = 0
        if claim is not None:
            first = claim()
            if first is None:
                return
            prefix = [first]
        while True:
            self.serial += 1
            R = self.R = Run(list(prefix))
            if shapes:
                R.shapes = shapes
            out = None
            try:
                out = ("ok", thunk())
            except AbsRaise as e:
                out = ("raise", e)
            except OutOfRange:
                return
            except Infeasible:
                out = None
            except Inconclusive as e:
                out = ("inconclusive", str(e))
            except RecursionError:
                out = ("inconclusive", "recursion")
            finally:
                self._restore(R)
            if claim is not None and not R.taken and prefix[0] > 0:
                return
            n += 1
            self.total_steps += R.steps
            self.analysed_functions |= R.funcs
            if out is not None:
                yield R, out[0], out[1]
            taken = R.taken
            while taken and taken[-1][2] == taken[-1][1] - 1:
                taken.pop()
            if claim is not None and len(taken) <= 1:
                if not R.pos:
                    return
                first = claim()
                if first is None:
                    return
                prefix = [first]
                n = 0
                continue
            if not taken:
                return
            prefix = [t[2] for t in taken]
            prefix[-1] += 1
            if n >= max_paths:
                yield R, "inconclusive", f"path budget ({max_paths}) exhausted"
                return
            if self.deadline and time.monotonic() > self.deadline:
                yield R, "inconclusive", "time budget exhausted"
                return

    def _restore(self, R):
        for obj, snap in R.touched.values():
            if isinstance(obj, AObj):
                obj.attrs = snap
            elif isinstance(obj, (AList, ADict, ASet)):
                obj.items = snap
            elif isinstance(obj, AIss):
                obj.entries = snap
            elif isinstance(obj, ACont):
                obj.sets = snap
            elif isinstance(obj, ACls):
                obj.ns = snap
            elif isinstance(obj, AMod):
                obj.vars = snap
        R.touched = {}

    def touch(self, obj):
        if obj.born == self.serial:
            return
        R = self.R
        if self.serial == 0:
            return
        R.effects.append((obj, self.where()))
        if id(obj) not in R.touched:
            if isinstance(obj, AObj):
                snap, obj.attrs = obj.attrs, dict(obj.attrs)
            elif isinstance(obj, AList):
                snap, obj.items = obj.items, list(obj.items)
            elif isinstance(obj, (ADict, ASet)):
                snap, obj.items = obj.items, dict(obj.items)
            elif isinstance(obj, AIss):
                snap, obj.entries = obj.entries, list(obj.entries)
            elif isinstance(obj, ACont):
                snap, obj.sets = obj.sets, dict(obj.sets)
            elif isinstance(obj, ACls):
                snap, obj.ns = obj.ns, dict(obj.ns)
            elif isinstance(obj, AMod):
                snap, obj.vars = obj.vars, dict(obj.vars)
            else:
                return
            R.touched[id(obj)] = (obj, snap)

    def where(self):
        R = self.R
        if R.frames and R.cur is not None:
            f = R.frames[-1]
            rel = os.path.relpath(f.fn.mod.path, self.root)
            return f"{rel}:{getattr(R.cur, 'lineno', '?')} in {f.fn.qual.split(':')[-1]}"
        return "spec"

    def choose(self, what, opts, syms=()):
        """Split the path; opts: list of outcomes."""
        if len(opts) == 0:
            raise Infeasible()
        if len(opts) == 1:
            return opts[0]
        R = self.R
        if self.serial == 0:
            raise Inconclusive(f"undetermined branch at import: {what}")
        if self.deadline and time.monotonic() > self.deadline + 5:
            raise Inconclusive("time budget exhausted")
        for s in syms:
            if isinstance(s, Sym) and s.hv:
                R.soft.append(f"branch on unmodelled value {short(s)} at {self.where()}")
        c = R.prefix[R.pos] if R.pos < len(R.prefix) else 0
        if c >= len(opts):
            raise OutOfRange()
        R.pos += 1
        R.taken.append((what, len(opts), c, opts[c], self.where()))
        return opts[c]

    def trace(self, R=None, last=14):
        R = R or self.R
        t = [f"{w} -> {o} [{at}]" for (w, n, c, o, at) in R.taken if at != "spec"]
        return t[-last:]

    # ------------------------------------------------------------------ symbols
    def sym(self, op, *args, kinds=KINDS_ALL, ek=None, dom=None, note=None):
        key = (op,) + tuple(self.hk(a) for a in args)
        R = self.R
        s = R.intern.get(key)
        if s is None:
            same_op = R.byop.setdefault(op, [])
            for o in same_op:
                # congruence: an argument has become known (or equal to another) since `o` was made
                if len(o.args) == len(args) and (op,) + tuple(self.hk(a) for a in o.args) == key:
                    R.intern[key] = o
                    return o
            hv = any(isinstance(a, Sym) and a.hv for a in args)
            s = Sym(op, args, frozenset(kinds), ek, tuple(dom) if dom else None, hv, note)
            R.intern[key] = s
            same_op.append(s)
        return s

    def havoc(self, why):
        R = self.R
        R.n += 1
        R.notes.append(f"{why} at {self.where()}")
        if self.serial == 0:
            return Ext("havoc:" + why)
        return Sym("havoc", (why, R.n), KINDS_ALL, hv=True)

    def hk(self, v):
        if is_scalar(v):
            if isinstance(v, bool):
                return ("c", int(v)) if False else ("b", v)
            if isinstance(v, (int, float)):
                return ("n", v)
            return ("c", v)
        if isinstance(v, tuple):
            return ("t",) + tuple(self.hk(x) for x in v)
        if isinstance(v, Sym):
            n = self.norm(v)
            if not isinstance(n, Sym):
                return self.hk(n)
            return ("s", id(n))
        if isinstance(v, (Ext, TypeOf, Rest)):
            return ("x", v)
        if isinstance(v, BType):
            return ("bt", v.name)
        if isinstance(v, ASet) :
            return ("set", frozenset(v.items))
        if isinstance(v, PyConst):
            return ("p", repr(v.v))
        if isinstance(v, BoundM):
            return ("bm", id(v.fn), self.hk(v.self_))
        if isinstance(v, AObj) and v.cls.lookup("__eq__")[0] is not None and v.cls.kind != "enum" \
                and v.cls.lookup("__hash__")[0] is None:
            return ("o", id(v))
        return ("o", id(v))

    def kinds(self, s):
        return self.R.kinds.get(s, s.kinds)

    def set_kinds(self, s, ks):
        ks = frozenset(ks)
        if not ks:
            raise Infeasible()
        self.R.kinds[s] = ks

    def domain(self, s):
        return self.R.dom.get(s, s.dom)

    def norm(self, v):
        """Resolve a symbol to a constant if the facts of the path determine it."""
        if not isinstance(v, Sym):
            return v
        R = self.R
        if v in R.alias:
            return self.norm(R.alias[v])
        d = R.dom.get(v, v.dom)
        if d is not None:
            return d[0] if len(d) == 1 else v
        ks = R.kinds.get(v, v.kinds)
        if len(ks) == 1:
            k = next(iter(ks))
            if k == "none":
                return None
            if k == "invalid":
                return self.Invalid
            if k == "missing":
                return self.Missing
            t = R.truth.get(v)
            if k == "bool" and t is not None:
                return t
            if t is False:
                if k == "str":
                    return ""
                if k == "int":
                    return 0
                if k == "float":
                    return 0.0
        if v in R.eqc:
            return R.eqc[v]
        if v.op in ("lower", "upper", "strip", "casefold") and len(v.args) == 1:
            a = self.norm(v.args[0])
            if isinstance(a, str):
                return getattr(a, v.op)()
        if v.op == "strof":
            a = self.norm(v.args[0])
            if is_scalar(a):
                return str(a)
        if v.op == "int":
            a = self.norm(v.args[0])
            if is_scalar(a) and a is not None:
                try:
                    return int(a)
                except Exception:
                    pass
        return v

    def force(self, s):
        """Split a finite-domain symbol into its values."""
        s = self.norm(s)
        if isinstance(s, Sym):
            d = self.domain(s)
            if d is not None:
                c = self.choose(f"value of {short(s)}", list(d))
                self.R.dom[s] = (c,)
                return c
        return s

    def split_kind(self, s, yes, what):
        """Decide whether kind(s) is in `yes`."""
        ks = self.kinds(s)
        a, b = ks & frozenset(yes), ks - frozenset(yes)
        if not a:
            return False
        if not b:
            return True
        c = self.choose(what, [True, False], (s,))
        self.set_kinds(s, a if c else b)
        return c

    # ------------------------------------------------------------------ kinds of values
    def kind(self, v):
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, AList):
            return "list"
        if isinstance(v, ADict):
            return "dict"
        if isinstance(v, ACont):
            return "cont"
        if isinstance(v, ASet):
            return "set"
        if isinstance(v, AObj):
            if v is self._gs.get("Invalid") or v.cls.name == "InvalidType":
                return "invalid"
            if v is self._gs.get("Missing") or v.cls.name == "MissingType":
                return "missing"
            if v.cls.kind == "enum" and self._str_enum(v.cls):
                return "str"
            return "other"
        return "other"

    def _str_enum(self, cls):
        return any(isinstance(b, BType) and b.name == "str" for c in cls.mro for b in c.ext_bases)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.norm(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if isinstance(v, AList):
            if any(not isinstance(x, Rest) for x in v.items):
                return True
            if not v.items:
                return False
            return self.rest_truth(v.items)
        if isinstance(v, ADict):
            if v.items:
                return True
            if v.open is None:
                return False
            return self.sym_truth(v.open)
        if isinstance(v, ASet):
            if v.items:
                return True
            if v.rest is None:
                return False
            return self.truth(v.rest)
        if isinstance(v, Stub):
            t = v.truth
            return t(self) if callable(t) else t
        if isinstance(v, AObj):
            if v.cls.kind == "enum" and self._str_enum(v.cls):
                return bool(v.attrs.get("$value"))
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            return True
        if isinstance(v, ACont):
            c = self.container_class()
            if c is not None:
                for nm in ("__bool__", "__len__"):
                    if c.lookup(nm)[0] is not None:
                        s = self.sym("contlen", v, kinds=["bool"])
                        return self.sym_truth(s)
            return True
        if isinstance(v, AIss):
            c = self.gs("src.error:ValidationIssues")
            for nm in ("__bool__", "__len__"):
                m, _ = c.lookup(nm)
                if m is not None:
                    h = self.havoc("truth of issues object")
                    return self.sym_truth(h)
            return True
        return True

    def container_class(self):
        try:
            return self.gs("src.data.container:SCIMDataContainer")
        except KeyError:
            return None

    def rest_truth(self, items):
        lab = items[0].label
        R = self.R
        if lab in R.restlen:
            return R.restlen[lab]
        c = self.choose(f"other elements of {short(lab)} exist", [True, False])
        R.restlen[lab] = c
        return c

    def sym_truth(self, s):
        R = self.R
        if s in R.truth:
            return R.truth[s]
        d = self.domain(s)
        if d is not None:
            t = [x for x in d if self.truth(x)]
            f = [x for x in d if not self.truth(x)]
            if not f:
                return True
            if not t:
                return False
            c = self.choose(f"{short(s)} is truthy", [True, False], (s,))
            R.dom[s] = tuple(t if c else f)
            return c
        ks = self.kinds(s)
        U = ks & frozenset(["bool", "int", "float", "str", "list", "dict"])
        F = ks & frozenset(["none", "invalid", "missing"])
        T = ks - U - F
        if s in R.eqc and is_scalar(R.eqc[s]):
            return bool(R.eqc[s])
        if s in R.mat:
            return self.truth(R.mat[s])
        if not U and not T:
            return False
        if not U and not F:
            return True
        if ks <= frozenset(["int", "float"]) and (s.op in ("len", "idx") or any(
                a is s or b is s for a, b, _ in R.order)):
            return not self.eq(s, 0)
        c = self.choose(f"{short(s)} is truthy", [True, False], (s,))
        if c:
            self.set_kinds(s, U | T)
        else:
            self.set_kinds(s, U | F)
        if c:
            self._assume_truthy(s)
        R.truth[s] = c
        return c

    def _assume_truthy(self, s):
        pass

    # ------------------------------------------------------------------ equality and order
    def eq(self, a, b):
        """Decide a == b (bool)."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not isinstance(a, Sym):
                a, b = b, a
            if isinstance(b, Sym) and "decoded" in (a.op, b.op):        # texts made of ASCII bytes are equal if the bytes are
                if b.op == "decoded":
                    a, b = b, a
                if b.op != "decoded" and self.kinds(b) <= frozenset(["str"]):
                    if not self.truth(self.sym("encodes", b, "ascii", kinds=["bool"])):
                        return False
                    return self.eq(a.args[0], self.sym("encoded", b, kinds=["other"]))
            return self.sym_eq(a, b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            return self.typeof_is(a, b)
        if is_scalar(a) and is_scalar(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Stub) and x.eq is not None:
                r = x.eq(self, y)
                if r is not None:
                    return r
        if isinstance(a, AObj) or isinstance(b, AObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, AObj):
                    if x.cls.kind == "enum":
                        if self._str_enum(x.cls) and isinstance(y, str):
                            return x.attrs.get("$value") == y
                        if isinstance(y, AObj) and y.cls is x.cls:
                            return False
                        continue
                    m, _ = x.cls.lookup("__eq__")
                    if m is not None:
                        r = self.call(self.bind(m, x, x.cls), [y], {})
                        if isinstance(r, Builtin) and r.name == "NotImplemented":
                            continue
                        return self.truth(r)
                    if x.cls.fields is not None and isinstance(y, AObj) and y.cls is x.cls:
                        return all(self.eq(x.attrs.get(f), y.attrs.get(f)) for f, _ in x.cls.fields)
            return False
        if isinstance(a, AList) and isinstance(b, AList):
            return self.list_eq(a.items, b.items)
        if isinstance(a, ADict) and isinstance(b, ADict):
            if a.open is None and b.open is None:
                if set(a.items) != set(b.items):
                    return False
                return all(self.eq(a.items[k][1], b.items[k][1]) for k in a.items)
            return self.truth(self.sym("dicteq", a, b, kinds=["bool"]))
        if isinstance(a, ASet) and isinstance(b, ASet):
            if a.rest is None and b.rest is None:
                if set(a.items) == set(b.items):
                    return True
                if all(not isinstance(x, Sym) for x in list(a.items.values()) + list(b.items.values())):
                    return False
            return self.truth(self.sym("seteq", a, b, kinds=["bool"]))
        if isinstance(a, ACont) and isinstance(b, (ACont, ADict)) or isinstance(b, ACont) and isinstance(a, ADict):
            return self.truth(self.sym("conteq", a, b, kinds=["bool"]))
        if isinstance(a, (Ext, BType)) and isinstance(b, (Ext, BType)):
            return self.hk(a) == self.hk(b)
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return self.hk(a) == self.hk(b)
        return False

    def list_eq(self, x, y):
        rx = [i for i in x if isinstance(i, Rest)]
        ry = [i for i in y if isinstance(i, Rest)]
        if not rx and not ry:
            if len(x) != len(y):
                return False
            return all(self.eq(p, q) for p, q in zip(x, y))
        if len(x) == len(y) and all(isinstance(p, Rest) == isinstance(q, Rest) for p, q in zip(x, y)):
            if [r.label for r in rx] == [r.label for r in ry]:
                return all(self.eq(p, q) for p, q in zip(x, y) if not isinstance(p, Rest))
        self.R.soft.append(f"comparison of lists of different shape at {self.where()}")
        return self.choose("lists are equal", [True, False])

    def sym_eq(self, s, o):
        R = self.R
        if isinstance(o, Sym):
            return self.symsym_eq(s, o)
        d = self.domain(s)
        if d is not None:
            yes = [x for x in d if self.plain_eq(x, o)]
            no = [x for x in d if not self.plain_eq(x, o)]
            if not yes:
                return False
            if not no:
                return True
            c = self.choose(f"{short(s)} == {short(o)}", [True, False], (s,))
            R.dom[s] = tuple(yes if c else no)
            return c
        k = self.kind(o)
        ks = self.kinds(s)
        if k in ("none", "invalid", "missing"):
            return self.split_kind(s, [k], f"{short(s)} is {k}")
        if k in ("int", "float", "bool") and not isinstance(o, Sym):
            if not ks & NUM:
                return False
            if isinstance(o, bool):
                if "bool" in ks and not ks & {"int", "float"}:
                    if not self.split_kind(s, ["bool"], f"{short(s)} is a bool"):
                        return False
                    return self.sym_truth(s) is o
                if not self.split_kind(s, ["bool"], f"{short(s)} is a bool"):
                    if not self.split_kind(s, ["int", "float"], f"{short(s)} is a number"):
                        return False
                    return self.num_cmp(s, int(o)) == "="
                return self.sym_truth(s) is o
            if not self.split_kind(s, ["int", "float"], f"{short(s)} is a number"):
                if self.split_kind(s, ["bool"], f"{short(s)} is a bool") and o in (0, 1):
                    return self.sym_truth(s) is bool(o)
                return False
            if o == 0 and s in R.truth:
                return not R.truth[s]
            r = self.num_eq(s, o)
            if o == 0:
                R.truth[s] = not r
            return r
        if k == "str":
            cv = o if isinstance(o, str) else o.attrs.get("$value")
            if "str" not in ks:
                return False
            if cv == "":
                if not self.split_kind(s, ["str"], f"{short(s)} is a string"):
                    return False
                return not self.sym_truth(s)
            if s in R.truth and R.truth[s] is False:
                return False
            if (s, cv) in R.neqc:
                return False
            if s.op in ("lower", "casefold") and cv != getattr(cv, s.op)():
                return False
            c = self.choose(f"{short(s)} == {cv!r}", [True, False], (s,))
            if c:
                self.set_kinds(s, ["str"])
                R.eqc[s] = cv
                R.truth[s] = True
            else:
                R.neqc[(s, cv)] = True
            return c
        if k == "list" and isinstance(o, AList) and not o.items:
            if not self.split_kind(s, ["list"], f"{short(s)} is a list"):
                return False
            return not self.sym_truth(s)
        if k not in ks and not (k in ("tuple", "bytes", "set", "other") and "other" in ks):
            if not (k == "dict" and "cont" in ks) and not (k == "cont" and "dict" in ks):
                return False
        if isinstance(o, AObj) and o.cls.lookup("__eq__")[0] is not None and o.cls.kind != "enum":
            if "other" not in ks:
                return False
        key = ("eq", s, self.hk(o))
        if key in R.isx:
            return R.isx[key]
        c = self.choose(f"{short(s)} == {short(o)}", [True, False], (s,))
        R.isx[key] = c
        return c

    def plain_eq(self, x, o):
        if is_scalar(x) and is_scalar(o):
            return x == o
        if x is o:
            return True
        if isinstance(x, AObj) and x.cls.kind == "enum" and isinstance(o, str):
            return self._str_enum(x.cls) and x.attrs["$value"] == o
        if isinstance(x, (BType, Ext)) and isinstance(o, (BType, Ext)):
            return self.hk(x) == self.hk(o)
        return False

    def symsym_eq(self, a, b):
        if a is b:
            return True
        R = self.R
        da, db = self.domain(a), self.domain(b)
        if da is not None and db is not None:
            return self.eq(self.force(a), self.force(b))
        if da is not None:
            return self.eq(b, self.force(a))
        if db is not None:
            return self.eq(a, self.force(b))
        ka, kb = self.kinds(a), self.kinds(b)
        na = ka | (NUM if ka & NUM else frozenset())
        if not (na & (kb | (NUM if kb & NUM else frozenset()))):
            return False
        if ka <= NUM and kb <= NUM or (a.op in ("len", "idx") and b.op in ("len", "idx")):
            return self.num_eq(a, b)
        pair = (a, b) if id(a) < id(b) else (b, a)
        if pair in R.neq:
            return False
        c = self.choose(f"{short(a)} == {short(b)}", [True, False], (a, b))
        if c:
            common = ka & kb
            if common:
                self.set_kinds(a, common)
                self.set_kinds(b, common)
            keep, gone = pair
            for (x, cv) in list(R.neqc):
                if x is gone:
                    R.neqc[(keep, cv)] = True
            for x, y in list(R.neq):
                if x is gone or y is gone:
                    x, y = (keep if x is gone else x), (keep if y is gone else y)
                    if x is y:
                        raise Infeasible("equal and different")
                    R.neq.add((x, y) if id(x) < id(y) else (y, x))
            for tbl in (R.truth, R.eqc):
                if gone in tbl and keep in tbl and tbl[gone] != tbl[keep]:
                    raise Infeasible("equal values with different facts")
                if gone in tbl and keep not in tbl:
                    tbl[keep] = tbl[gone]
            if keep in R.eqc and (keep, R.eqc[keep]) in R.neqc:
                raise Infeasible("equal values with different facts")
            R.alias[gone] = keep
        else:
            R.neq.add(pair)
        return c

    # numeric ordering facts
    def _le(self, a, b):
        """(a<=b derivable, a<b derivable)"""
        R = self.R
        nodes, edges = set([a, b]), []
        for x, y, st in R.order:
            edges.append((x, y, st))
            nodes.add(x)
            nodes.add(y)
        for n in list(nodes):
            if isinstance(n, Sym):
                if n.op in ("len", "idx"):
                    edges.append((0, n, False))
                    nodes.add(0)
                if n.op == "idx":
                    ln = R.intern.get(("len", self.hk(n.args[0])))
                    if ln is not None:
                        edges.append((n, ln, True))
                        nodes.add(ln)
        consts = sorted(n for n in nodes if not isinstance(n, Sym))
        for i in range(len(consts) - 1):
            edges.append((consts[i], consts[i + 1], True))
        best = {a: False}
        work = [a]
        while work:
            x = work.pop()
            for p, q, st in edges:
                if self._same(p, x):
                    s2 = best[x] or st
                    if not s2 and (x, q) != (q, x) and self._neq_known(x, q):
                        s2 = True
                    if q not in best or (s2 and not best[q]):
                        best[q] = s2
                        work.append(q)
        if b in best:
            st = best[b] or self._neq_known(a, b)
            return True, st
        return False, False

    @staticmethod
    def _same(p, x):
        return p is x or (not isinstance(p, Sym) and not isinstance(x, Sym) and p == x)

    def _neq_known(self, a, b):
        if a is b:
            return False
        return (a, b) in self.R.neq or (b, a) in self.R.neq

    def _is_int(self, x):
        if isinstance(x, Sym):
            return self.kinds(x) <= frozenset(["int", "bool"])
        return isinstance(x, int)

    def _add_lt(self, a, b):
        # a < b ; integers tighten
        if self._is_int(a) and self._is_int(b):
            if not isinstance(a, Sym):
                self.R.order.append((a + 1, b, False))
                return
            if not isinstance(b, Sym):
                self.R.order.append((a, b - 1, False))
                return
        self.R.order.append((a, b, True))

    def num_possible(self, a, b):
        le, lt = self._le(a, b)
        ge, gt = self._le(b, a)
        out = []
        if not ge:
            out.append("<")
        if not lt and not gt and not self._neq_known(a, b):
            out.append("=")
        if not le:
            out.append(">")
        return out

    def num_assume(self, a, b, rel):
        R = self.R
        if rel == "<":
            self._add_lt(a, b)
        elif rel == ">":
            self._add_lt(b, a)
        elif rel == "=":
            for s, o in ((a, b), (b, a)):
                if isinstance(s, Sym) and not isinstance(o, Sym):
                    R.eqc[s] = o
                    R.truth[s] = bool(o)
            R.order.append((a, b, False))
            R.order.append((b, a, False))
        elif rel == "<=":
            R.order.append((a, b, False))
        elif rel == ">=":
            R.order.append((b, a, False))
        elif rel == "!=":
            R.neq.add((a, b))

    def num_cmp(self, a, b):
        poss = self.num_possible(a, b)
        c = self.choose(f"{short(a)} vs {short(b)}", poss, (a, b))
        if len(poss) > 1:
            self.num_assume(a, b, c)
        return c

    def num_eq(self, a, b):
        poss = self.num_possible(a, b)
        if poss == ["="]:
            return True
        if "=" not in poss:
            return False
        c = self.choose(f"{short(a)} == {short(b)}", [True, False], (a, b))
        if c:
            self.num_assume(a, b, "=")
        else:
            rest = [p for p in poss if p != "="]
            if len(rest) == 1:
                self.num_assume(a, b, rest[0])
            else:
                self.num_assume(a, b, "!=")
        return c

    def num_test(self, a, b, op):
        true_set = {"<": ["<"], "<=": ["<", "="], ">": [">"], ">=": [">", "="]}[op]
        poss = self.num_possible(a, b)
        yes = [p for p in poss if p in true_set]
        no = [p for p in poss if p not in true_set]
        if not yes:
            return False
        if not no:
            return True
        c = self.choose(f"{short(a)} {op} {short(b)}", [True, False], (a, b))
        sel = yes if c else no
        if len(sel) == 1:
            self.num_assume(a, b, sel[0])
        else:
            self.num_assume(a, b, "<=" if "<" in sel else ">=")
        return c

    def order_test(self, a, b, op):
        a, b = self.norm(a), self.norm(b)
        a = self.force(a)
        b = self.force(b)
        if is_scalar(a) and is_scalar(b):
            try:
                return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                        ">=": lambda: a >= b}[op]()
            except TypeError:
                self.raise_("TypeError", f"{op} not supported")
        for x, y, nm in ((a, b, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]),
                         (b, a, {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op])):
            if isinstance(x, AObj):
                m, _ = x.cls.lookup(nm)
                if m is not None:
                    r = self.call(self.bind(m, x, x.cls), [y], {})
                    if isinstance(r, Builtin) and r.name == "NotImplemented":
                        continue
                    return self.truth(r)
        ka = self._okind(a)
        kb = self._okind(b)
        for grp in (("int", "float", "bool"), ("str",), ("datetime",), ("list",), ("set",), ("tuple",)):
            g = frozenset(grp)
            if ka <= g and kb <= g:
                break
        else:
            groups = [g for g in (("int", "float", "bool"), ("str",), ("datetime",), ("list",))
                      if ka & frozenset(g) and kb & frozenset(g)]
            opts = groups + [None]
            if not groups:
                self.raise_("TypeError", f"'{op}' not supported between {short(a)} and {short(b)}")
            c = self.choose(f"types of {short(a)}, {short(b)} comparable", opts, (a, b))
            if c is None:
                self.raise_("TypeError", f"'{op}' not supported between {short(a)} and {short(b)}")
            g = frozenset(c)
            if isinstance(a, Sym):
                self.set_kinds(a, ka & g)
            if isinstance(b, Sym):
                self.set_kinds(b, kb & g)
        if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
            return self.num_test(a, b, op)
        return self.truth(self.sym("cmp" + op, a, b, kinds=["bool"]))

    def _okind(self, v):
        if isinstance(v, Sym):
            return self.kinds(v)
        return frozenset([self.kind(v)])

    def is_(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.eq(a, b)
        if isinstance(a, Sym):
            if b is None or isinstance(b, AObj) and self.kind(b) in ("invalid", "missing"):
                return self.sym_eq(a, b)
            d = self.domain(a)
            if d is not None:
                return self.sym_eq(a, b)
            if isinstance(b, bool):
                if not self.split_kind(a, ["bool"], f"{short(a)} is a bool"):
                    return False
                return self.sym_truth(a) is b
            if isinstance(b, Sym):
                return self.symsym_eq(a, b)
            if a in self.R.mat:
                return self.R.mat[a] is b
            if isinstance(b, Heap):
                return False
            return self.eq(a, b)
        if is_scalar(a) and is_scalar(b):
            return a is b or (type(a) is type(b) and a == b and not isinstance(a, float))
        if isinstance(a, (Ext, BType)) and isinstance(b, (Ext, BType)):
            return self.hk(a) == self.hk(b)
        return False

    def typeof_is(self, t, o):
        s = t.sym
        if isinstance(o, TypeOf):
            return o.sym is s
        if isinstance(o, BType):
            k = EXACT_KIND.get(o.name)
            if k is None:
                return False
            return self.split_kind(s, [k], f"type({short(s)}) is {o.name}")
        if isinstance(o, ACls):
            if o.name == "SCIMDataContainer":
                return self.split_kind(s, ["cont"], f"type({short(s)}) is {o.name}")
            return False
        if isinstance(o, Ext) and o.path == "datetime.datetime":
            return self.split_kind(s, ["datetime"], f"type({short(s)}) is datetime")
        return False

    def isinstance_(self, v, t):
        v = self.norm(v)
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, AList):
            self.raise_("TypeError", "isinstance arg 2")
        if isinstance(t, Ext):
            p = t.path.split(".")
            if p[0] in ("typing", "collections") and p[-1] in TYPING:
                t = BT[TYPING[p[-1]]]
            elif t.path == "datetime.datetime":
                t = BT["datetime"]
            elif t.path == "typing.Any":
                self.raise_("TypeError", "isinstance with Any")
            elif p[-1] in ("Mapping", "MutableMapping"):
                t = BT["dict"]
            elif p[-1] in ("Sequence", "Collection", "Iterable", "Sized", "Container", "MutableSequence"):
                ks = {"list", "str", "tuple"} | ({"dict", "set"} if p[-1] in (
                    "Collection", "Iterable", "Sized", "Container") else set())
                if p[-1] == "MutableSequence":
                    ks = {"list"}
                if isinstance(v, Sym):
                    return self.split_kind(v, ks, f"isinstance({short(v)}, {p[-1]})")
                return self.kind(v) in ks
            elif p[-1] in ("Hashable",):
                return self.kind(v) not in ("list", "dict", "set")
            elif p[-1] in ("Number", "Real", "Integral"):
                t = (BT["int"], BT["float"]) if p[-1] != "Integral" else (BT["int"],)
                return self.isinstance_(v, t)
            elif t.path == "types.NoneType":
                t = BT["NoneType"]
            elif t.path in ("enum.Enum",):
                return isinstance(v, AObj) and v.cls.kind == "enum"
            else:
                h = self.havoc(f"isinstance against {t.path}")
                return self.truth(h)
        if isinstance(t, Stub):
            r = t.isinst(v)
            if r is not None:
                return r
        if isinstance(v, Sym):
            d = self.domain(v)
            if d is not None:
                return self.isinstance_(self.force(v), t)
            if isinstance(t, BType):
                if t.name == "object":
                    return True
                ks = KIND_OF_BT.get(t.name)
                if ks is None:
                    return self.split_kind(v, ["other"], f"isinstance({short(v)}, {t.name})") and \
                        self.truth(self.sym("isinst", v, t.name, kinds=["bool"])) if "other" in self.kinds(v) else False
                return self.split_kind(v, ks, f"isinstance({short(v)}, {t.name})")
            if isinstance(t, ACls):
                if t.name == "SCIMDataContainer":
                    return self.split_kind(v, ["cont"], f"isinstance({short(v)}, {t.name})")
                if t.name == "InvalidType":
                    return self.split_kind(v, ["invalid"], f"isinstance({short(v)}, {t.name})")
                if t.name == "MissingType":
                    return self.split_kind(v, ["missing"], f"isinstance({short(v)}, {t.name})")
                if "other" not in self.kinds(v):
                    return False
                c = self.truth(self.sym("isinst", v, t, kinds=["bool"]))
                if c:
                    self.set_kinds(v, ["other"])
                return c
            return self.truth(self.havoc(f"isinstance against {short(t)}"))
        if isinstance(t, BType):
            n = t.name
            if n == "object":
                return True
            if n == "type":
                return isinstance(v, (ACls, BType))
            if isinstance(v, AObj) and v.cls.kind == "enum" and n == "str":
                return self._str_enum(v.cls)
            k = self.kind(v)
            if n in ("tuple", "set", "bytes"):
                return k == n
            return k in KIND_OF_BT.get(n, ())
        if isinstance(t, ACls):
            if isinstance(v, AObj):
                return t in v.cls.mro
            if isinstance(v, ACont):
                return t.name == "SCIMDataContainer"
            if isinstance(v, AIss):
                return t.name == "ValidationIssues"
            if isinstance(v, Stub):
                r = v.isinst(t)
                if r is not None:
                    return r
            return False
        return self.truth(self.havoc(f"isinstance against {short(t)}"))

    # ------------------------------------------------------------------ exceptions
    def raise_(self, name, msg=""):
        e = AObj(self.exc_cls[name], self.serial)
        e.attrs["args"] = (msg,)
        raise AbsRaise(e, self.where())

    def exc_name(self, e):
        return e.exc.cls.name if isinstance(e.exc, AObj) else short(e.exc)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, ACls) and isinstance(exc, AObj):
            return t in exc.cls.mro
        if isinstance(t, Ext) and isinstance(exc, AObj):
            if t.path == "binascii.Error":
                return exc.cls.name == "binascii.Error"
            return False
        return False

    def ext_exc(self, path, base):
        if path not in self.exc_cls:
            c = ACls(path, "ext:" + path, [self.exc_cls[base]], {}, 0)
            c.kind = "exc"
            self.exc_cls[path] = c
        return self.exc_cls[path]

    # ------------------------------------------------------------------ attributes
    def bind(self, x, obj, cls):
        if isinstance(x, Fn):
            return BoundM(x, obj)
        if isinstance(x, ClassM):
            return BoundM(x.fn, cls)
        if isinstance(x, StaticM):
            return x.fn
        if isinstance(x, PropV):
            return self.call(BoundM(x.get, obj), [], {})
        if isinstance(x, Ext) and x.path.startswith("operator."):
            return x   # builtin functions do not bind
        return x

    def getattr(self, o, name, default=None, has_default=False):
        o = self.norm(o)
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if has_default and isinstance(e.exc, AObj) and e.exc.cls.name == "AttributeError":
                return default
            raise

    @staticmethod
    def accessor(f):
        """the attribute a function returns if that is all it does"""
        n = f.node
        if not isinstance(n, ast.FunctionDef) or len(n.args.args) != 1 or f.isgen:
            return False
        body = n.body
        if len(body) == 2 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
                and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == n.args.args[0].arg:
            return body[0].value.attr
        return False

    def _getattr(self, o, name):
        if isinstance(o, AObj):
            c, owner = o.cls.lookup(name)
            if isinstance(c, PropV):
                f = c.get
                if isinstance(f, Fn):
                    if f.field is None:
                        f.field = self.accessor(f)
                    if f.field and f.field in o.attrs and f.qual not in self.overrides \
                            and not isinstance(o.cls.lookup(f.field)[0], PropV):
                        self.R.funcs.add(f.qual)
                        return o.attrs[f.field]
                return self.call(BoundM(f, o), [], {})
            if name in o.attrs:
                return o.attrs[name]
            if o.cls.kind == "enum":
                if name == "value":
                    return o.attrs["$value"]
                if name == "name":
                    return o.attrs["$name"]
            if c is not None:
                return self.bind(c, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.havoc("__dict__")
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(BoundM(g, o), [name], {})
            if o.cls.kind == "enum" and self._str_enum(o.cls) and isinstance(o.attrs.get("$value"), str):
                return BMeth(o.attrs["$value"], name)
            if o.cls.kind == "exc" and name in ("with_traceback", "add_note"):
                return BMeth(o, name)
            self.raise_("AttributeError", f"{o.cls.name} object has no attribute {name}")
        if isinstance(o, ACls):
            c, owner = o.lookup(name)
            if c is not None:
                if isinstance(c, ClassM):
                    return BoundM(c.fn, o)
                if isinstance(c, StaticM):
                    return c.fn
                return c
            if name == "__name__":
                return o.name
            if name == "__members__" and o.kind == "enum":
                d = ADict(self.serial)
                for k, v in o.ns.items():
                    if isinstance(v, AObj) and v.cls is o:
                        d.items[self.hk(k)] = (k, v)
                return d
            if name == "__mro__":
                return tuple(o.mro)
            if o.kind == "exc" or o.ext_bases or name.startswith("__"):
                return self.havoc(f"class attribute {o.name}.{name}")
            self.raise_("AttributeError", f"type {o.name} has no attribute {name}")
        if isinstance(o, AMod):
            if name in o.vars:
                return o.vars[name]
            m = self.module(o.name + "." + name)
            if m is not None:
                return m
            self.raise_("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Ext):
            if o.path == "typing" and name == "TYPE_CHECKING":
                return False
            return ext_member(o.path + "." + name)
        if isinstance(o, SuperV):
            obj = o.self_
            cls = obj if isinstance(obj, ACls) else obj.cls
            mro = cls.mro
            i = mro.index(o.owner) if o.owner in mro else -1
            for c in mro[i + 1:]:
                if name in c.ns:
                    x = c.ns[name]
                    if isinstance(x, Fn):
                        return BoundM(x, obj)
                    if isinstance(x, ClassM):
                        return BoundM(x.fn, cls)
                    if isinstance(x, StaticM):
                        return x.fn
                    if isinstance(x, PropV):
                        return self.call(BoundM(x.get, obj), [], {})
                    return x
            if name == "__init__":
                return Builtin("noop")
            if name in ("__init_subclass__", "__setattr__", "__getattribute__", "__eq__", "__hash__"):
                return BMeth(o, name)
            self.raise_("AttributeError", f"super object has no attribute {name}")
        if isinstance(o, Stub):
            if name in o.get:
                v = o.get[name]
                if callable(v) and not isinstance(v, (Fn, Stub, StubM)):
                    v = v(self)
                return v
            if "*" in o.get:
                return o.get["*"](self, name)
            return self.havoc(f"{o.name}.{name}")
        if isinstance(o, AIss):
            if name in ISS_METHODS:
                return BMeth(o, name)
            c = self.gs("src.error:ValidationIssues")
            x, _ = c.lookup(name)
            if x is not None:
                return self.bind(x, o, c)
            return self.havoc(f"ValidationIssues.{name}")
        if isinstance(o, ACont):
            if name in ("to_dict", "__getitem__", "__setitem__", "__delitem__", "__eq__"):
                return BMeth(o, name)
            c = self.container_class()
            x, _ = c.lookup(name)
            if x is not None:
                return self.bind(x, o, c)
            if name.startswith("_"):
                return self.havoc(f"SCIMDataContainer.{name}")
            self.raise_("AttributeError", f"SCIMDataContainer has no attribute {name}")
        if isinstance(o, Sym):
            d = self.domain(o)
            if d is not None:
                return self._getattr(self.force(o), name)
            return self.sym_getattr(o, name)
        if isinstance(o, Fn):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__func__":
                return o
            if name in o.attrs:
                return o.attrs[name]
            return self.havoc(f"function attribute {name}")
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            if name in ("__name__", "__qualname__"):
                return o.fn.name
            return self.havoc("bound method attribute")
        if isinstance(o, PropV):
            if name == "setter":
                return Builtin("prop_setter"), o
            return self.havoc("property attribute")
        if isinstance(o, BType):
            if name == "__name__":
                return o.name
            return BMeth(o, name)
        if isinstance(o, TypeOf):
            if name == "__name__":
                ks = self.kinds(o.sym)
                if len(ks) == 1 and next(iter(ks)) in BT_OF_KIND:
                    return BT_OF_KIND[next(iter(ks))]
                return self.sym("typename", o.sym, kinds=["str"])
            return self.havoc("type attribute")
        if isinstance(o, PyConst):
            if name in ("pattern", "string") and hasattr(o.v, name):
                return getattr(o.v, name)
            return BMeth(o, name)
        if o is None or isinstance(o, (bool, int, float, str, bytes, tuple)):
            if not hasattr(o, name):
                self.raise_("AttributeError", f"{type(o).__name__} object has no attribute {name}")
            if isinstance(o, (int, float)) and name in ("real", "imag"):
                return getattr(o, name)
            return BMeth(o, name)
        pyt = {AList: list, ADict: dict, ASet: set}.get(type(o))
        if pyt is not None:
            if not hasattr(pyt, name) and not (isinstance(o, ADict) and name == "default_factory"):
                self.raise_("AttributeError", f"{pyt.__name__} object has no attribute {name}")
            return BMeth(o, name)
        if isinstance(o, Iter):
            return BMeth(o, name)
        return self.havoc(f"attribute {name} of {short(o)}")

    def sym_getattr(self, s, name):
        ks = self.kinds(s)
        sup = set()
        for k in ks:
            pyt = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict,
                   "none": type(None)}.get(k)
            if pyt is not None and hasattr(pyt, name):
                sup.add(k)
            elif k == "datetime":
                import datetime as _d
                if hasattr(_d.datetime, name):
                    sup.add(k)
            elif k == "cont":
                c = self.container_class()
                if c is not None and c.lookup(name)[0] is not None:
                    sup.add(k)
            elif k == "other":
                sup.add(k)
            elif k in ("invalid", "missing"):
                if name in ("__class__", "__bool__", "__repr__"):
                    sup.add(k)
        if not sup:
            self.raise_("AttributeError", f"{short(s)} has no attribute {name}")
        if not self.split_kind(s, sup, f"{short(s)} has attribute {name}"):
            self.raise_("AttributeError", f"{short(s)} has no attribute {name}")
        ks = self.kinds(s)
        if ks == frozenset(["cont"]) and name != "to_dict":
            return self._getattr(self.as_cont(s), name)
        if s.op in lib.BYTES and name in ("decode", *lib.PURE_STR):
            return BMeth(s, name)
        if ks == frozenset(["other"]):
            if s.note and name in s.note:
                v = s.note[name]
                return v(self) if callable(v) and not isinstance(v, (Stub, StubM, Fn)) else v
            x = self.sym("attr", s, name)
            return x
        return BMeth(s, name)

    def setattr(self, o, name, v):
        o = self.norm(o)
        if isinstance(o, AObj):
            c, _ = o.cls.lookup(name)
            if isinstance(c, PropV):
                if c.set is None:
                    self.raise_("AttributeError", "can't set attribute")
                self.call(BoundM(c.set, o), [v], {})
                return
            self.touch(o)
            o.attrs[name] = v
        elif isinstance(o, ACls):
            self.touch(o)
            o.ns[name] = v
        elif isinstance(o, AMod):
            self.touch(o)
            o.vars[name] = v
        elif isinstance(o, Fn):
            o.attrs[name] = v
            if o.born != self.serial and self.serial:
                self.R.effects.append((o, self.where()))
        elif isinstance(o, Stub):
            self.R.events.append(("setattr", o, name, v, self.where()))
            self.R.effects.append((o, self.where()))
        else:
            raise Inconclusive(f"attribute store on {short(o)} at {self.where()}")

    # ------------------------------------------------------------------ lists
    def new_list(self, items):
        return AList(items, self.serial)

    def new_dict(self, pairs=()):
        d = ADict(self.serial)
        for k, v in pairs:
            d.items[self.hk(k)] = (k, v)
        return d

    def new_set(self, items=()):
        s = ASet(self.serial)
        for x in items:
            if isinstance(x, Rest):
                s.rest = self.new_list([x])
            else:
                s.items[self.hk(x)] = x
        return s

    def elem_sym(self, s):
        ek = s.ek or KINDS_JSON
        if s.note and "elem" in s.note:
            return s.note["elem"](self, s)
        return self.sym("elem", s, kinds=ek)

    def materialise(self, s, shapes=None):
        """The elements of an unknown list."""
        R = self.R
        if s in R.mat:
            return R.mat[s]
        t = R.truth.get(s)
        opts = list(shapes or R.shapes)
        if t is True and "empty" in opts:
            opts.remove("empty")
        if t is False:
            opts = ["empty"]
        c = self.choose(f"shape of list {short(s)}", opts, (s,))
        if c == "empty":
            R.truth[s] = False
            l = self.new_list([])
        elif c == "focus":
            R.truth[s] = True
            lab = s
            l = self.new_list([Rest(lab, 0), self.elem_sym(s), Rest(lab, 1)])
        elif c == "two":
            R.truth[s] = True
            ek = s.ek or KINDS_JSON
            l = self.new_list([self.sym("elem", s, i, kinds=ek) for i in range(2)])
        else:
            R.truth[s] = True
            ek = s.ek or KINDS_JSON
            l = self.new_list([self.sym("elem", s, 0, kinds=ek)])
        R.mat[s] = l
        return l

    def length(self, v):
        v = self.norm(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, AList):
            rs = [x for x in v.items if isinstance(x, Rest)]
            if not rs:
                return len(v.items)
            n = len(v.items) - len(rs)
            if len(rs) == 2 and n == 1 and rs[0].label is rs[1].label:
                if isinstance(rs[0].label, Sym) and rs[0].label.op == "filtered":
                    self.R.soft.append("how many elements a filter keeps")
                s = self.sym("len", rs[0].label, kinds=["int"])
                self.num_fact_len(rs[0].label)
                return s
            return self.sym("len", v, kinds=["int"])
        if isinstance(v, ADict):
            if v.open is None:
                return len(v.items)
            return self.sym("len", v.open, kinds=["int"])
        if isinstance(v, ASet):
            if v.rest is None:
                vals = list(v.items.values())
                if not any(isinstance(self.norm(x), Sym) for x in vals) or len(vals) <= 1:
                    return len(vals)
                # unknown members may coincide
                uniq = []
                for x in vals:
                    if not any(self.eq(x, y) for y in uniq):
                        uniq.append(x)
                return len(uniq)
            if isinstance(v.rest, Sym) and v.rest.op == "filtered":
                self.R.soft.append("how many elements a filter keeps")
            return self.sym("len", v.rest, kinds=["int"])
        if isinstance(v, Sym):
            if self.domain(v) is not None:
                return self.length(self.force(v))
            ok = frozenset(["str", "list", "dict", "other"])
            if not self.split_kind(v, ok, f"{short(v)} has a length"):
                self.raise_("TypeError", f"object has no len()")
            if v in self.R.mat:
                return self.length(self.R.mat[v])
            n = self.sym("len", v, kinds=["int"])
            if v in self.R.truth and n not in self.R.truth:
                self.R.truth[n] = self.R.truth[v]
                if not self.R.truth[v]:
                    self.R.eqc[n] = 0
                else:
                    self.R.order.append((1, n, False))
            return n
        if isinstance(v, AObj):
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.call(BoundM(m, v), [], {})
        if isinstance(v, Stub) and "__len__" in v.get:
            return v.get["__len__"](self)
        if isinstance(v, (AObj, ACont, int, float, type(None))):
            self.raise_("TypeError", "object has no len()")
        return self.havoc(f"len of {short(v)}")

    def num_fact_len(self, label):
        n = self.sym("len", label, kinds=["int"])
        k = ("lenfact", n)
        if k not in self.R.isx:
            self.R.isx[k] = True
            self.R.order.append((1, n, False))
            i = self.sym("idx", label, kinds=["int"])
            self.R.order.append((0, i, False))
            self.R.order.append((i, n, True))
            self.R.truth[n] = True

    def iterate(self, v):
        """-> (python list of values/Rest, pending exception or None)."""
        v = self.norm(v)
        if isinstance(v, (tuple,)):
            return list(v), None
        if isinstance(v, str):
            return list(v), None
        if isinstance(v, AList):
            return list(v.items), None
        if isinstance(v, Iter):
            out = v.items[v.pos:]
            if v.born != self.serial and self.serial:
                self.R.effects.append((v, self.where()))
            else:
                v.pos = len(v.items)
            return out, v.exc
        if isinstance(v, LazyGen):
            return self.gen_items(v)
        if isinstance(v, ADict):
            out = [k for k, _ in v.items.values()]
            if v.open is not None:
                out.append(Rest(v.open, 0))
            return out, None
        if isinstance(v, ASet):
            out = list(v.items.values())
            if v.rest is not None:
                out += v.rest.items
            return out, None
        if isinstance(v, Stub):
            if v.iter is not None:
                return self.iterate(v.iter(self))
            return self.iterate(self.havoc(f"iteration over {v.name}"))
        if isinstance(v, AObj):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(BoundM(m, v), [], {}))
            m, _ = v.cls.lookup("__getitem__")
            if m is not None:
                raise Inconclusive("legacy iteration protocol")
            self.raise_("TypeError", f"{v.cls.name} object is not iterable")
        if isinstance(v, ACls) and v.kind == "enum":
            return [x for x in v.ns.values() if isinstance(x, AObj) and x.cls is v], None
        if isinstance(v, Sym):
            if self.domain(v) is not None:
                return self.iterate(self.force(v))
            ks = self.kinds(v)
            it = frozenset(["list", "str", "dict", "other"])
            if not self.split_kind(v, it, f"{short(v)} is iterable"):
                self.raise_("TypeError", f"{short(v)} is not iterable")
            ks = self.kinds(v)
            if ks == frozenset(["list"]):
                return list(self.materialise(v).items), None
            if self.split_kind(v, ["list"], f"{short(v)} is a list"):
                return list(self.materialise(v).items), None
            if v in self.R.mat:
                return list(self.R.mat[v].items), None
            if self.kinds(v) <= frozenset(["str", "dict"]):
                # characters / keys: one arbitrary element
                if not self.truth(v):
                    return [], None
                return [Rest(v, 0), self.sym("elem", v, kinds=["str"]), Rest(v, 1)], None
            h = self.havoc(f"iteration over {short(v)}")
            l = Sym("hlist", (v,), frozenset(["list"]), hv=True)
            return list(self.materialise(l).items), None
        if isinstance(v, (int, float, bool)) or v is None or isinstance(v, (ACont, Fn, ACls)):
            if isinstance(v, ACont) :
                c = self.container_class()
                if c.lookup("__iter__")[0] is None:
                    # __getitem__(0) on a container raises
                    self.raise_("AttributeError", "SCIMDataContainer is not iterable")
            self.raise_("TypeError", f"{short(v)} is not iterable")
        if isinstance(v, bytes):
            return list(v), None
        h = self.havoc(f"iteration over {short(v)}")
        l = Sym("hlist", (h,), frozenset(["list"]), hv=True)
        return list(self.materialise(l).items), None

    def items_of(self, v):
        items, exc = self.iterate(v)
        if exc is not None:
            raise exc
        return items

    # ------------------------------------------------------------------ containers (native SCIMDataContainer)
    def as_cont(self, s):
        """The mutable container object behind an unknown container value."""
        R = self.R
        if s in R.mat and isinstance(R.mat[s], ACont):
            return R.mat[s]
        c = ACont(self.serial, base=s)
        R.mat[s] = c
        return c

    def rep_key(self, rep):
        """AttrRep object or string -> (schema or '', attr, sub, is_ext) lower-cased, or None."""
        rep = self.norm(rep)
        if isinstance(rep, Sym) and self.domain(rep) is not None:
            rep = self.force(rep)
        if isinstance(rep, str):
            cls = self.gs("src.data.container:AttrRep")
            r = self.call(self.getattr(cls, "parse"), [rep], {})
            if self.kind(r) == "invalid":
                self.raise_("ValueError", "bad attribute name")
            rep = r
        if isinstance(rep, AObj) and rep.cls.name == "AttrRep" or isinstance(rep, Stub):
            sch, at, sub = (self.norm(self.getattr(rep, n)) for n in ("schema", "attr", "sub_attr"))
            ext = self.norm(self.getattr(rep, "extension"))
            if all(isinstance(x, str) for x in (sch, at, sub)):
                return sch.lower(), at.lower(), sub.lower(), bool(ext)
            return (sch if not isinstance(sch, str) else sch.lower(),
                    at if not isinstance(at, str) else at.lower(),
                    sub if not isinstance(sub, str) else sub.lower(),
                    bool(ext) if not isinstance(ext, Sym) else self.truth(ext))
        if isinstance(rep, Sym):
            return (rep, rep, rep, False)
        if is_scalar(rep) or isinstance(rep, (AObj, ACls)):
            self.raise_("AttributeError", "not an attribute name")
        return None

    def cont_get(self, c, rep):
        k = self.rep_key(rep)
        if k is None:
            return self.havoc("container lookup with unknown name")
        sch, at, sub, ext = k
        return self._cont_get(c, sch, at, sub)

    def _cont_get(self, c, sch, at, sub):
        # extension namespace, if the container is known to hold that schema's data
        if sch and ("", sch) in c.sets:
            e = c.sets[("", sch)]
            if isinstance(e, ACont):
                return self._cont_get(e, "", at, sub)
        key = ("", at)
        if sub == "":
            if key in c.sets:
                return c.sets[key]
            return self.base_item(c, sch, at)
        parent = c.sets[key] if key in c.sets else self.base_item(c, sch, at)
        return self.sub_item(parent, sub)

    def base_item(self, c, sch, at):
        if c.base is None:
            return self.Missing
        if isinstance(c.base, Sym) and c.base.note and "item" in c.base.note:
            v = c.base.note["item"](self, c, sch, at)
            if v is not None:
                return v
        s = self.sym("item", c.base, at, kinds=KINDS_ITEM | {"missing"}, ek=KINDS_ITEM)
        return s

    def sub_item(self, parent, sub):
        parent = self.norm(parent)
        if isinstance(parent, ACont):
            return self._cont_get(parent, "", sub, "")
        if isinstance(parent, AList):
            out = []
            for x in parent.items:
                if isinstance(x, Rest):
                    out.append(x)
                else:
                    out.append(self.getitem_sub(x, sub))
            return self.new_list(out)
        if isinstance(parent, Sym) and self.domain(parent) is None:
            if self.split_kind(parent, ["cont"], f"{short(parent)} is complex"):
                return self._cont_get(self.as_cont(parent), "", sub, "")
            if self.split_kind(parent, ["list"], f"{short(parent)} is a list"):
                return self.sub_item(self.materialise(parent), sub)
            return self.Missing
        return self.Missing

    def getitem_sub(self, x, sub):
        x = self.norm(x)
        if isinstance(x, ACont):
            return self._cont_get(x, "", sub, "")
        if isinstance(x, Sym):
            if self.split_kind(x, ["cont"], f"{short(x)} is complex"):
                return self._cont_get(self.as_cont(x), "", sub, "")
        return self.Missing

    def cont_set(self, c, rep, v):
        k = self.rep_key(rep)
        if k is None:
            raise Inconclusive("container store with unknown name")
        sch, at, sub, ext = k
        self.touch(c)
        self.R.events.append(("cset", c, k, v, self.where()))
        if ext:
            e = c.sets.get(("", sch))
            if not isinstance(e, ACont):
                e = ACont(self.serial)
                if c.base is not None:
                    e.base = self.sym("item", c.base, sch, kinds=["cont"])
                c.sets[("", sch)] = e
            if sub:
                self._cont_set_sub(e, at, sub, v)
            else:
                e.sets[("", at)] = v
            return
        if sub:
            self._cont_set_sub(c, at, sub, v)
        else:
            c.sets[("", at)] = v

    def _cont_set_sub(self, c, at, sub, v):
        p = c.sets.get(("", at))
        if p is None:
            p = self.base_item(c, "", at)
        p = self.norm(p)
        if isinstance(p, Sym) and self.kinds(p) == frozenset(["cont"]):
            p = self.as_cont(p)
        if self.kind(p) == "missing":
            if isinstance(v, AList):
                raise Inconclusive("container store of a list of sub-values")
            p = ACont(self.serial)
            c.sets[("", at)] = p
        if isinstance(p, ACont):
            p.sets[("", sub)] = v
            return
        raise Inconclusive("container store into sub-attribute")

    def cont_del(self, c, rep):
        k = self.rep_key(rep)
        if k is None:
            raise Inconclusive("container delete with unknown name")
        sch, at, sub, ext = k
        self.touch(c)
        self.R.events.append(("cdel", c, k, None, self.where()))
        if ext and ("", sch) in c.sets and isinstance(c.sets[("", sch)], ACont):
            c = c.sets[("", sch)]
        elif ext and c.base is not None:
            e = ACont(self.serial)
            e.base = self.sym("item", c.base, sch, kinds=["cont"])
            c.sets[("", sch)] = e
            c = e
        if sub:
            p = self.norm(self._cont_get(c, "", at, ""))
            if isinstance(p, Sym) and "cont" in self.kinds(p):
                if self.split_kind(p, ["cont"], f"{short(p)} is complex"):
                    p = self.as_cont(p)
                    if ("", at) not in c.sets:
                        c.sets[("", at)] = p
            if isinstance(p, Sym) and "list" in self.kinds(p):
                if self.split_kind(p, ["list"], f"{short(p)} is a list"):
                    p = self.materialise(p)
                    if ("", at) not in c.sets:
                        c.sets[("", at)] = p
            if isinstance(p, ACont):
                p.sets[("", sub)] = self.Missing
            elif isinstance(p, AList):
                for x in p.items:
                    if isinstance(x, Sym) and self.kinds(x) == frozenset(["cont"]):
                        x = self.as_cont(x)
                    if isinstance(x, ACont):
                        x.sets[("", sub)] = self.Missing
            return
        c.sets[("", at)] = self.Missing

    def make_cont(self, d=None):
        d = self.norm(d) if d is not None else None
        if d is None:
            return ACont(self.serial)
        if isinstance(d, ACont):
            c = ACont(self.serial)
            c.base, c.sets = d.base, d.sets     # shares state, as the constructor does
            return c
        if isinstance(d, ADict):
            c = ACont(self.serial)
            for k, v in d.items.values():
                k = self.norm(k)
                if isinstance(k, str):
                    c.sets[("", k.lower())] = self.cont_value(v)
            if d.open is not None:
                c.base = d.open
            return c
        if isinstance(d, Sym):
            if self.domain(d) is not None:
                return self.make_cont(self.force(d))
            if self.split_kind(d, ["dict", "cont"], f"{short(d)} is an object"):
                if d in self.R.mat and isinstance(self.R.mat[d], ACont):
                    c = ACont(self.serial)
                    m = self.R.mat[d]
                    c.base, c.sets = m.base, m.sets
                    return c
                return ACont(self.serial, base=d)
            return ACont(self.serial)
        return ACont(self.serial)

    def cont_value(self, v):
        v = self.norm(v)
        if isinstance(v, ADict):
            return self.make_cont(v)
        if isinstance(v, AList):
            return self.new_list([self.cont_value(x) if isinstance(x, ADict) else x for x in v.items])
        return v

    def cont_to_dict(self, c):
        s = self.sym("to_dict", c, kinds=["dict"])
        if c.base is None:
            d = ADict(self.serial)
            for (_, k), v in c.sets.items():
                if self.kind(self.norm(v)) == "missing":
                    continue
                v = self.norm(v)
                if isinstance(v, ACont):
                    v = self.cont_to_dict(v)
                elif isinstance(v, AList):
                    v = self.new_list([self.cont_to_dict(x) if isinstance(x, ACont) else x
                                       for x in v.items])
                d.items[self.hk(k)] = (k, v)
            self.R.labels[id(d)] = ("to_dict", c, d)
            return d
        return s

    # ------------------------------------------------------------------ issues (native ValidationIssues)
    def loc(self, v):
        v = self.norm(v)
        if v is None:
            return ()
        if isinstance(v, tuple):
            return tuple(self.lockey(x) for x in v)
        if isinstance(v, AList):
            return tuple(self.lockey(x) for x in v.items)
        if isinstance(v, str):
            return tuple(v)
        raise Inconclusive(f"issue location {short(v)} at {self.where()}")

    def lockey(self, x):
        x = self.norm(x)
        if isinstance(x, AObj) and x.cls.name == "AttrRep":
            return ("rep", self.norm(self.getattr(x, "attr")))
        return x

    def loc_prefix(self, a, b):
        """a is a prefix of b (decided; unknown components compare by facts)."""
        if len(a) > len(b):
            return False
        return all(self.loceq(x, y) for x, y in zip(a, b))

    def loceq(self, x, y):
        x, y = self.norm(x), self.norm(y)
        if x is y:
            return True
        if isinstance(x, Sym) and isinstance(y, Sym) and x.op == "idx" and y.op == "idx":
            return False
        if isinstance(x, Sym) or isinstance(y, Sym):
            kx = self.kinds(x) if isinstance(x, Sym) else frozenset([self.kind(x)])
            ky = self.kinds(y) if isinstance(y, Sym) else frozenset([self.kind(y)])
            if not kx & ky:
                return False
            return self.eq(x, y)
        return x == y and type(x) is type(y)

    def iss_add(self, iss, issue, proceed, location=None):
        self.touch(iss)
        code = self.norm(self.getattr(issue, "code"))
        stop = not self.truth(proceed)
        iss.entries.append(E(self.loc(location), code, stop, issue))
        self.R.events.append(("issue", iss, iss.entries[-1], None, self.where()))

    def iss_merge(self, iss, other, location=None):
        other = self.norm(other)
        self.touch(iss)
        pre = self.loc(location) if self.truth(location) else ()
        if isinstance(other, AIss):
            for e in list(other.entries):
                if isinstance(e, Tok):
                    iss.entries.append(Tok(e.tok, pre + e.loc))
                else:
                    iss.entries.append(E(pre + e.loc, e.code, e.stop, e.err))
        elif isinstance(other, Sym) and other.hv:
            iss.entries.append(Tok(other, pre))
            self.R.soft.append("merge of unmodelled issues")
        else:
            self.raise_("AttributeError", "merge of a non-issues object")

    def iss_get(self, iss, location):
        loc = self.loc(location)
        out = AIss(self.serial)
        for e in iss.entries:
            if self.loc_prefix(loc, e.loc):
                if isinstance(e, Tok):
                    out.entries.append(Tok(e.tok, e.loc[len(loc):]))
                else:
                    out.entries.append(E(e.loc[len(loc):], e.code, e.stop, e.err))
            elif isinstance(e, Tok) and self.loc_prefix(e.loc, loc):
                rel = loc[len(e.loc):]
                out.entries.append(Tok(("sub", e.tok, rel), ()))
        return out

    def iss_pop(self, iss, location, code):
        loc = self.loc(location)
        self.touch(iss)
        out = AIss(self.serial)
        if any(not isinstance(e, Tok) and len(e.loc) == len(loc) and self.loc_prefix(loc, e.loc)
               for e in iss.entries):
            out = self.iss_get(iss, location)
            out.entries = [e for e in out.entries if not isinstance(e, Tok)]
        keep = []
        code = self.norm(code)
        for e in iss.entries:
            if isinstance(e, Tok):
                if self.loc_prefix(e.loc, loc):
                    rel = loc[len(e.loc):]
                    out.entries.append(Tok(("popped", e.tok, rel, code), ()))
                    keep.append(Tok(("without", e.tok, rel, code), e.loc))
                else:
                    keep.append(e)
                continue
            if len(e.loc) == len(loc) and e.code == code and self.loc_prefix(loc, e.loc):
                pass
            else:
                keep.append(e)
        iss.entries[:] = keep
        return out

    def tok_fact(self, kind, tok, rel):
        """kind 'has' (some issue at or below rel) or 'stop' (a stopping issue at a prefix of rel)."""
        R = self.R
        rel = tuple(self.lockey(x) for x in rel)
        if isinstance(tok, tuple) and tok[0] == "sub":
            return self.tok_fact(kind, tok[1], tok[2] + rel)
        key = (kind, tok, rel)
        if key in R.tokfacts:
            return R.tokfacts[key]
        for (k2, t2, r2), v in list(R.tokfacts.items()):
            if t2 != tok:
                continue
            if kind == "has":
                if k2 == "has" and v and self._pre(rel, r2):
                    return True
                if k2 == "has" and not v and self._pre(r2, rel):
                    return False
                if k2 == "stop" and v and rel == ():
                    return True
            else:
                if k2 == "stop" and v and self._pre(r2, rel):
                    return True
                if k2 == "stop" and not v and self._pre(rel, r2):
                    return False
                if k2 == "has" and not v and r2 == ():
                    return False
        if isinstance(tok, Sym) and tok.hv:
            R.soft.append("facts about unmodelled issues")
        opts = [False, True]
        f = getattr(self, "tok_rule", None)
        if f is not None:
            r = f(kind, tok, rel)
            if r is not None:
                return r
        c = self.choose(f"{'issues' if kind == 'has' else 'stopping issue'} in {tok} at {rel}", opts)
        R.tokfacts[key] = c
        if kind == "stop" and c:
            R.tokfacts[("has", tok, ())] = True
        return c

    @staticmethod
    def _pre(a, b):
        return len(a) <= len(b) and b[:len(a)] == a

    def iss_can_proceed(self, iss, locs):
        locs = [self.loc(x) for x in locs] or [()]
        for loc in locs:
            for e in list(iss.entries):
                if isinstance(e, Tok):
                    if self.loc_prefix(e.loc, loc):
                        if self.tok_fact("stop", e.tok, loc[len(e.loc):]):
                            return False
                elif e.stop and self.loc_prefix(e.loc, loc):
                    return False
        return True

    def iss_has(self, iss, locs=()):
        locs = [self.loc(x) for x in locs] or [()]
        for loc in locs:
            for e in list(iss.entries):
                if not isinstance(e, Tok) and self.loc_prefix(loc, e.loc):
                    return True
            for e in list(iss.entries):
                if isinstance(e, Tok):
                    if self.loc_prefix(loc, e.loc):
                        if self.tok_fact("has", e.tok, ()):
                            return True
                    elif self.loc_prefix(e.loc, loc):
                        if self.tok_fact("has", e.tok, loc[len(e.loc):]):
                            return True
        return False

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        o, k = self.norm(o), self.norm(k)
        if isinstance(o, ACont):
            return self.cont_get(o, k)
        if isinstance(o, AList) or isinstance(o, tuple):
            items = o.items if isinstance(o, AList) else list(o)
            if isinstance(k, slice):
                return self.list_slice(o, items, k)
            return self.list_index(items, k, o)
        if isinstance(o, (str, bytes)):
            if isinstance(k, slice):
                st, sp, se = self.norm(k.start), self.norm(k.stop), self.norm(k.step)
                if all(x is None or isinstance(x, int) for x in (st, sp, se)):
                    return o[st:sp:se]
                return self.sym("slice", o, st, sp, se, kinds=["str"])
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.raise_("IndexError", "index")
            if not isinstance(k, Sym) or not (set(self.kinds(k)) & {"int", "bool"}):
                self.raise_("TypeError", "string indices must be integers")
            return self.sym("char", o, k, kinds=["str"])
        if isinstance(o, ADict):
            return self.dict_get(o, k, raise_missing=True)
        if isinstance(o, Sym):
            if self.domain(o) is not None:
                return self.getitem(self.force(o), k)
            if o in self.R.mat:
                return self.getitem(self.R.mat[o], k)
            ks = self.kinds(o)
            sub = frozenset(["list", "str", "dict", "cont", "other"])
            if not self.split_kind(o, sub, f"{short(o)} is subscriptable"):
                self.raise_("TypeError", f"{short(o)} is not subscriptable")
            kk = self._okind(k) if not isinstance(k, slice) else frozenset(["slice"])
            if self.split_kind(o, ["cont"], f"{short(o)} is a container"):
                return self.cont_get(self.as_cont(o), k)
            if self.split_kind(o, ["list"], f"{short(o)} is a list"):
                if kk <= frozenset(["str", "other"]):
                    self.raise_("TypeError", "list indices must be integers")
                if o.op in ("split", "hlist") or o.hv:
                    if isinstance(k, int) and k in (0, -1):
                        return self.sym("part", o, k, kinds=["str"])
                    if isinstance(k, slice):
                        return self.sym("slice", o, self._sl(k.start), self._sl(k.stop), self._sl(k.step), kinds=["list"], ek=frozenset(["str"]))
                    c = self.choose(f"{short(o)} has an element {short(k)}", [True, False], (o,))
                    if not c:
                        self.R.soft.append("length of a split string")
                        self.raise_("IndexError", "list index out of range")
                    return self.sym("part", o, k, kinds=["str"])
                return self.getitem(self.materialise(o), k)
            if self.split_kind(o, ["dict"], f"{short(o)} is a dict"):
                hk = self.sym("haskey", o, k, kinds=["bool"])
                if not self.sym_truth(hk):
                    self.raise_("KeyError", k)
                return self.sym("dget", o, k, kinds=KINDS_JSON)
            if self.split_kind(o, ["str"], f"{short(o)} is a string"):
                if isinstance(k, slice):
                    return self.sym("slice", o, self._sl(k.start), self._sl(k.stop), self._sl(k.step), kinds=["str"])
                if kk <= frozenset(["str", "other"]):
                    self.raise_("TypeError", "string indices must be integers")
                if not self.truth(o):
                    self.raise_("IndexError", "string index out of range")
                return self.sym("char", o, k, kinds=["str"])
            return self.sym("sub", o, k if not isinstance(k, slice) else "slice")
        if isinstance(o, Ext):
            return o
        if isinstance(o, ACls):
            if o.kind == "enum":
                k = self.force(k)
                if isinstance(k, str) and k in o.ns and isinstance(o.ns[k], AObj):
                    return o.ns[k]
                self.raise_("KeyError", k)
            m, _ = o.lookup("__class_getitem__")
            return o
        if isinstance(o, BType):
            return o
        if isinstance(o, Stub):
            if o.getitem is not None:
                return o.getitem(self, k)
            return self.havoc(f"item of {o.name}")
        if isinstance(o, AObj):
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(BoundM(m, o), [k], {})
            self.raise_("TypeError", f"{o.cls.name} object is not subscriptable")
        if isinstance(o, PyConst):
            try:
                r = o.v[k]
                return r if is_scalar(r) else PyConst(r)
            except Exception:
                return self.havoc("subscript of library value")
        if o is None or isinstance(o, (bool, int, float)):
            self.raise_("TypeError", "object is not subscriptable")
        return self.havoc(f"subscript of {short(o)}")

    def _sl(self, v):
        return self.norm(v)

    def list_index(self, items, k, o):
        if isinstance(k, bool):
            k = int(k)
        rs = [x for x in items if isinstance(x, Rest)]
        if isinstance(k, int):
            if not rs:
                try:
                    return items[k]
                except IndexError:
                    self.raise_("IndexError", "list index out of range")
            if len(rs) == 2 and len(items) == 3 and isinstance(items[0], Rest):
                lab = rs[0].label
                self.num_fact_len(lab)
                idx = self.sym("idx", lab, kinds=["int"])
                if k >= 0:
                    if self.num_eq(idx, k):
                        return items[1]
                    n = self.sym("len", lab, kinds=["int"])
                    if not self.num_test(n, k, ">"):
                        self.raise_("IndexError", "list index out of range")
                    return self.other_elem(lab, k)
                n = self.sym("len", lab, kinds=["int"])
                at_end = self.truth(self.sym("lastidx", lab, k, kinds=["bool"]))
                if at_end:
                    return items[1]
                if k != -1 and not self.num_test(n, -k, ">="):
                    self.raise_("IndexError", "list index out of range")
                return self.other_elem(lab, k)
            raise Inconclusive("index into list of unknown shape")
        if isinstance(k, Sym) and k.op == "idx":
            if len(rs) == 2 and rs[0].label is k.args[0] and len(items) == 3:
                return items[1]
            if not rs and len(items) == 0:
                self.raise_("IndexError", "list index out of range")
            return self.havoc("index of another list")
        if isinstance(k, Sym):
            ks = self.kinds(k)
            if not ks & frozenset(["int", "bool", "other"]):
                self.raise_("TypeError", "list indices must be integers")
            if not rs:
                for i, x in enumerate(items):
                    if self.eq(k, i):
                        return x
                self.raise_("IndexError", "list index out of range")
            return self.havoc("unknown index")
        if isinstance(k, (str, type(None), AObj, tuple)):
            self.raise_("TypeError", "list indices must be integers")
        return self.havoc("unknown index")

    def other_elem(self, lab, k):
        ek = lab.ek if isinstance(lab, Sym) and lab.ek else KINDS_ALL
        self.R.soft.append("another element of a list by position")
        return self.sym("otherelem", lab, k, kinds=ek)

    def list_slice(self, o, items, k):
        st, sp, se = self.norm(k.start), self.norm(k.stop), self.norm(k.step)
        rs = [x for x in items if isinstance(x, Rest)]
        mk = (lambda x: tuple(x)) if isinstance(o, tuple) else self.new_list
        if not rs:
            if all(x is None or isinstance(x, int) for x in (st, sp, se)):
                return mk(items[st:sp:se])
            # unknown bounds on an exact list: compare positions
            if se is None and (st is None or isinstance(st, (int, Sym))) and isinstance(sp, Sym) and \
                    (st is None or (isinstance(st, int) and st >= 0)):
                n = len(items)
                out = []
                if self.kinds(sp) & frozenset(["none"]) and self.split_kind(sp, ["none"], f"{short(sp)} is None"):
                    return mk(items[st:])
                if not self.split_kind(sp, NUM, f"{short(sp)} is a number"):
                    self.raise_("TypeError", "slice indices must be integers")
                if self.num_test(sp, 0, "<"):
                    raise Inconclusive("negative slice bound")
                for i in range(st or 0, n):
                    if self.num_test(sp, i, ">"):
                        out.append(items[i])
                    else:
                        break
                return mk(out)
            raise Inconclusive("slice with unknown bounds")
        if st is None and sp is None and se is None:
            return mk(items)
        if se is None and len(rs) == 2 and len(items) == 3:
            lab = rs[0].label
            self.num_fact_len(lab)
            idx = self.sym("idx", lab, kinds=["int"])
            inside = True
            lo = st if st is not None else 0
            if isinstance(lo, int) and lo < 0:
                inside = self.truth(self.sym("tail", lab, lo, kinds=["bool"]))
            elif lo != 0 or isinstance(lo, Sym):
                inside = self.num_test(idx, lo, ">=")
            if inside and sp is not None:
                if isinstance(sp, int) and sp < 0:
                    inside = not self.truth(self.sym("tail", lab, sp, kinds=["bool"]))
                else:
                    if isinstance(sp, Sym) and "none" in self.kinds(sp):
                        if self.split_kind(sp, ["none"], f"{short(sp)} is None"):
                            sp = None
                    if sp is not None:
                        inside = self.num_test(idx, sp, "<")
            sub = self.sym("slicelab", lab, lo, sp if sp is not None else "end", kinds=["list"])
            if not inside:
                return mk([Rest(sub, 0)])
            if lo == 0 and sp is None:
                return mk(items)
            return mk([Rest(sub, 0), items[1], Rest(sub, 1)])
        if se == -1 and st is None and sp is None and len(items) == 3:
            lab = self.sym("revlab", rs[0].label, kinds=["list"])
            return mk([Rest(lab, 0), items[1], Rest(lab, 1)])
        raise Inconclusive("slice of a list of unknown shape")

    def dict_find(self, d, k):
        """Key lookup with splitting. Returns (found, value)."""
        k = self.norm(k)
        if isinstance(k, Sym) and self.domain(k) is not None:
            k = self.force(k)
        if isinstance(k, TypeOf):
            ks = self.kinds(k.sym)
            if len(ks) == 1:
                kk = next(iter(ks))
                k = BT[BT_OF_KIND[kk]] if kk in BT_OF_KIND else k
                if kk == "cont":
                    k = self.container_class()
        if isinstance(k, (AList, ADict, ASet)):
            self.raise_("TypeError", "unhashable type")
        h = self.hk(k)
        if h in d.items:
            return True, d.items[h][1]
        if h[0] == "bt" and h[1] == "datetime" and ("x", Ext("datetime.datetime")) in d.items:
            return True, d.items[("x", Ext("datetime.datetime"))][1]
        if isinstance(k, bool):
            if ("n", int(k)) in d.items:
                return True, d.items[("n", int(k))][1]
        elif isinstance(k, int) and k in (0, 1) and ("b", bool(k)) in d.items:
            return True, d.items[("b", bool(k))][1]
        if isinstance(k, TypeOf):
            return None, None
        if isinstance(k, Sym):
            if not self.kinds(k) & frozenset(["str", "int", "float", "bool", "none", "other", "datetime", "invalid", "missing"]):
                self.raise_("TypeError", "unhashable type")
            if self.kinds(k) & frozenset(["list", "dict"]):
                if self.split_kind(k, ["list", "dict"], f"{short(k)} is unhashable"):
                    self.raise_("TypeError", "unhashable type")
            for kk, v in list(d.items.values()):
                if self.eq(k, kk):
                    return True, v
        elif any(isinstance(kk, Sym) for kk, _ in d.items.values()):
            for kk, v in list(d.items.values()):
                if isinstance(self.norm(kk), Sym) and self.eq(kk, k):
                    return True, v
        elif isinstance(k, AObj) and k.cls.lookup("__eq__")[0] is not None and k.cls.lookup("__hash__")[0] is not None:
            for kk, v in list(d.items.values()):
                if self.eq(k, kk):
                    return True, v
        elif isinstance(k, tuple):
            for kk, v in list(d.items.values()):
                if isinstance(kk, tuple) and self.eq(k, kk):
                    return True, v
        if d.open is not None:
            hk = self.sym("haskey", d.open, k, kinds=["bool"])
            if ("deleted", d, h) in self.R.isx:
                return False, None
            if self.sym_truth(hk):
                v = self.sym("dget", d.open, k, kinds=KINDS_JSON)
                if isinstance(d.open.note, dict) and "value" in d.open.note:
                    v = d.open.note["value"](self, k) or v
                return True, v
        return False, None

    def dict_get(self, d, k, default=None, raise_missing=False):
        f, v = self.dict_find(d, k)
        if f is None:
            vals = [x for _, x in d.items.values()]
            if all(isinstance(x, str) for x in vals):
                return self.sym("lookup", d, k, kinds=["str"])
            return self.havoc("lookup by type")
        if f:
            return v
        if d.default is not None and raise_missing:
            nv = self.call(d.default, [], {})
            self.dict_set(d, k, nv)
            return nv
        if raise_missing:
            self.raise_("KeyError", k)
        return default

    def dict_set(self, d, k, v):
        k = self.norm(k)
        if isinstance(k, Sym) and self.domain(k) is not None:
            k = self.force(k)
        if isinstance(k, (AList, ADict)):
            self.raise_("TypeError", "unhashable type")
        self.touch(d)
        h = self.hk(k)
        if h in d.items:
            d.items[h] = (d.items[h][0], v)
        else:
            if isinstance(k, Sym):
                for hh, (kk, _) in list(d.items.items()):
                    if self.eq(k, kk):
                        d.items[hh] = (kk, v)
                        return
            d.items[h] = (k, v)
        if d.open is not None:
            self.R.isx.pop(("deleted", d, h), None)

    def setitem(self, o, k, v):
        o, k = self.norm(o), self.norm(k)
        if isinstance(o, Sym):
            if self.domain(o) is not None:
                o = self.force(o)
            elif o in self.R.mat:
                o = self.R.mat[o]
            elif self.kinds(o) == frozenset(["cont"]):
                o = self.as_cont(o)
            else:
                ks = self.kinds(o)
                if self.split_kind(o, ["cont"], f"{short(o)} is a container"):
                    o = self.as_cont(o)
                elif self.split_kind(o, ["dict"], f"{short(o)} is a dict"):
                    d = ADict(self.serial, open_=o)
                    self.R.mat[o] = d
                    o = d
                elif self.split_kind(o, ["list"], f"{short(o)} is a list"):
                    o = self.materialise(o)
                elif "other" in self.kinds(o):
                    raise Inconclusive(f"item store into {short(o)}")
                else:
                    self.raise_("TypeError", "object does not support item assignment")
        if isinstance(o, ACont):
            return self.cont_set(o, k, v)
        if isinstance(o, ADict):
            return self.dict_set(o, k, v)
        if isinstance(o, AList):
            self.touch(o)
            rs = [x for x in o.items if isinstance(x, Rest)]
            if isinstance(k, int) and not isinstance(k, bool) and not rs:
                try:
                    o.items[k] = v
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                return
            if isinstance(k, Sym) and k.op == "idx" and len(rs) == 2 and rs[0].label is k.args[0]:
                o.items[1] = v
                return
            if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
                o.items[:] = self.items_of(v)
                return
            if isinstance(k, slice) and not rs and all(
                    x is None or isinstance(self.norm(x), int) for x in (k.start, k.stop, k.step)):
                o.items[self.norm(k.start):self.norm(k.stop):self.norm(k.step)] = self.items_of(v)
                return
            raise Inconclusive("list store at unknown index")
        if isinstance(o, AObj):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(BoundM(m, o), [k, v], {})
                return
        if isinstance(o, Stub):
            self.R.events.append(("setitem", o, k, v, self.where()))
            self.R.effects.append((o, self.where()))
            return
        if is_scalar(o) or isinstance(o, (tuple, AObj)):
            self.raise_("TypeError", "object does not support item assignment")
        raise Inconclusive(f"item store into {short(o)}")

    def delitem(self, o, k):
        o, k = self.norm(o), self.norm(k)
        if isinstance(o, Sym):
            if o in self.R.mat:
                o = self.R.mat[o]
            elif self.split_kind(o, ["cont"], f"{short(o)} is a container"):
                o = self.as_cont(o)
            else:
                if not self.kinds(o) & frozenset(["list", "dict", "other"]):
                    self.raise_("TypeError", "object doesn't support item deletion")
                raise Inconclusive("item delete on unknown object")
        if isinstance(o, ACont):
            return self.cont_del(o, k)
        if isinstance(o, ADict):
            f, _ = self.dict_find(o, k)
            if not f:
                self.raise_("KeyError", k)
            self.touch(o)
            h = self.hk(k)
            o.items.pop(h, None)
            if o.open is not None:
                self.R.isx[("deleted", o, h)] = True
            return
        if isinstance(o, AList):
            if isinstance(k, int) and not any(isinstance(x, Rest) for x in o.items):
                self.touch(o)
                try:
                    del o.items[k]
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                return
            raise Inconclusive("delete from list of unknown shape")
        if isinstance(o, AObj):
            m, _ = o.cls.lookup("__delitem__")
            if m is not None:
                self.call(BoundM(m, o), [k], {})
                return
        if is_scalar(o) or isinstance(o, (AObj, tuple)):
            self.raise_("TypeError", "object doesn't support item deletion")
        raise Inconclusive(f"item delete on {short(o)}")

    def contains(self, c, x):
        """x in c"""
        c, x = self.norm(c), self.norm(x)
        if isinstance(c, (tuple, AList, ASet, Iter, LazyGen)):
            items = self.items_of(c)
            if isinstance(c, ASet) and isinstance(x, (AList, ADict)):
                self.raise_("TypeError", "unhashable type")
            # decide kind-like members first to keep splits small
            found = False
            rest = False
            for i in items:
                if isinstance(i, Rest):
                    rest = True
                    continue
                if self.is_same(i, x) or self.eq(x, i):
                    found = True
                    break
            if found:
                return True
            if rest:
                s = self.sym("inrest", tuple(i.label for i in items if isinstance(i, Rest))[:1], x, kinds=["bool"])
                self.R.soft.append("membership among other elements")
                return self.sym_truth(s)
            return False
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Sym):
                if not self.split_kind(x, ["str"], f"{short(x)} is a string"):
                    self.raise_("TypeError", "'in <string>' requires string")
                if len(c) > 1 and len(x.args) and x.op == "elem":
                    pass
                return self.truth(self.sym("in", x, c, kinds=["bool"]))
            self.raise_("TypeError", "'in <string>' requires string")
        if isinstance(c, ADict):
            return bool(self.dict_find(c, x)[0])
        if isinstance(c, Sym):
            if self.domain(c) is not None:
                return self.contains(self.force(c), x)
            if c in self.R.mat:
                return self.contains(self.R.mat[c], x)
            ok = frozenset(["str", "list", "dict", "other"])
            if not self.split_kind(c, ok, f"{short(c)} supports membership"):
                self.raise_("TypeError", f"argument of type {short(c)} is not iterable")
            if self.kinds(c) == frozenset(["dict"]):
                return self.sym_truth(self.sym("haskey", c, x, kinds=["bool"]))
            if not self._okind(x) & frozenset(["str", "other"]) and "str" in self.kinds(c):
                if self.split_kind(c, ["str"], f"{short(c)} is a string"):
                    self.raise_("TypeError", "'in <string>' requires string")
            return self.sym_truth(self.sym("in", x, c, kinds=["bool"]))
        if isinstance(c, AObj):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(BoundM(m, c), [x], {}))
            return self.contains(self.new_list(self.items_of(c)), x)
        if isinstance(c, Stub):
            if "__contains__" in c.get:
                return c.get["__contains__"](self, x)
            return self.contains(self.new_list(self.items_of(c)), x)
        if isinstance(c, ACls) and c.kind == "enum":
            return any(self.is_(x, m) for m in self.items_of(c))
        if c is None or isinstance(c, (bool, int, float)):
            self.raise_("TypeError", "argument is not iterable")
        if isinstance(c, ACont):
            cc = self.container_class()
            m, _ = cc.lookup("__contains__")
            if m is None:
                self.raise_("AttributeError", "membership on container")
        return self.truth(self.havoc(f"membership in {short(c)}"))

    def is_same(self, a, b):
        a, b = self.norm(a), self.norm(b)
        return a is b

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.norm(f)
        R = self.R
        if isinstance(f, BoundM):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, StubM):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, BMeth):
            return self.call_bmeth(f.obj, f.name, list(args), dict(kw))
        if isinstance(f, ACls):
            return self.instantiate(f, list(args), dict(kw))
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2)
        if isinstance(f, Ext):
            return lib.call_ext(self, f.path, list(args), dict(kw))
        if isinstance(f, (Builtin, BType)):
            return lib.call_builtin(self, f.name, list(args), dict(kw))
        if isinstance(f, AObj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call_fn(m if isinstance(m, Fn) else m.fn, [f] + list(args), kw)
            self.raise_("TypeError", f"{f.cls.name} object is not callable")
        if isinstance(f, Stub):
            if f.call is not None:
                return f.call(self, list(args), dict(kw))
            for a in list(args) + list(kw.values()):
                if isinstance(a, Heap):
                    R.soft.append(f"mutable argument given to {f.name}")
            return self.havoc(f"call of {f.name}")
        if isinstance(f, Sym):
            if self.domain(f) is not None:
                return self.call(self.force(f), args, kw)
            if f.note and "call" in f.note:
                return f.note["call"](self, list(args), dict(kw))
            for a in list(args) + list(kw.values()):
                if isinstance(a, Heap):
                    R.soft.append(f"mutable argument given to unknown callable {short(f)}")
            if not self.kinds(f) & frozenset(["other"]):
                self.raise_("TypeError", f"{short(f)} is not callable")
            return self.havoc(f"call of {short(f)}")
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.fn, args, kw)
        if isinstance(f, TypeOf):
            return self.havoc("construction by type()")
        if f is None or is_scalar(f):
            self.raise_("TypeError", f"{short(f)} is not callable")
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], Builtin):  # property setter
            p = f[1]
            return PropV(p.get, args[0])
        return self.havoc(f"call of {short(f)}")

    def call_fn(self, fn, args, kw):
        R = self.R
        o = self.overrides.get(fn.qual)
        if o is not None:
            r = o(self, args, dict(kw))
            if r is not NotImplemented:
                return r
        R.depth += 1
        if R.depth > self.MAX_DEPTH:
            R.depth -= 1
            raise Inconclusive(f"recursion limit in {fn.qual}")
        R.funcs.add(fn.qual)
        env = Env(fn.env, fn.mod)
        self.bind_args(fn, args, kw, env)
        a = fn.node.args
        first = None
        names = [x.arg for x in a.posonlyargs + a.args]
        if names:
            first = env.vars.get(names[0])
        fr = Frame(fn, first)
        env.frame = fr
        cur = R.cur
        R.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, env)
            if fn.isgen:
                fr.yields = []
                exc = None
                try:
                    self.exec_block(fn.node.body, env)
                except ReturnEx:
                    pass
                except AbsRaise as e:
                    exc = e
                return Iter(fr.yields, exc, self.serial)
            try:
                self.exec_block(fn.node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            R.frames.pop()
            R.depth -= 1
            R.cur = cur

    def bind_args(self, fn, args, kw, env):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        vars_ = env.vars
        kw = dict(kw)
        if "**" in kw:
            raise Inconclusive("call with unknown keyword arguments")
        n = min(len(args), len(pos))
        for i in range(n):
            vars_[pos[i]] = args[i]
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", f"{fn.name}() takes {len(pos)} positional arguments")
        if a.vararg is not None:
            extra = args[len(pos):]
            if any(isinstance(x, Rest) for x in extra):
                vars_[a.vararg.arg] = self.new_list(extra)
            else:
                vars_[a.vararg.arg] = tuple(extra)
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p in vars_:
                if p in kw and i < len(args):
                    self.raise_("TypeError", f"{fn.name}() got multiple values for argument {p}")
                continue
            if p in kw:
                vars_[p] = kw.pop(p)
            else:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[p] = fn.defaults[j]
                else:
                    self.raise_("TypeError", f"{fn.name}() missing argument {p}")
        for p in kwo:
            if p in kw:
                vars_[p] = kw.pop(p)
            elif p in fn.kwdefaults:
                vars_[p] = fn.kwdefaults[p]
            else:
                self.raise_("TypeError", f"{fn.name}() missing keyword argument {p}")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.new_dict(kw.items())
        elif kw:
            self.raise_("TypeError", f"{fn.name}() got an unexpected keyword argument {list(kw)[0]}")

    def instantiate(self, cls, args, kw):
        if self.native_issues and cls.qual == "src.error:ValidationIssues":
            return AIss(self.serial)
        if self.native_cont and cls.qual == "src.data.container:SCIMDataContainer":
            if args:
                return self.make_cont(args[0])
            return self.make_cont(kw.get("d"))
        o = self.cls_overrides.get(cls.qual)
        if o is not None:
            r = o(self, args, kw)
            if r is not NotImplemented:
                return r
        if cls.kind == "enum":
            v = self.norm(args[0])
            mem = [m for m in self.items_of(cls)]
            for m in mem:
                if self.eq(v, m.attrs["$value"]) or self.is_(v, m):
                    return m
            self.raise_("ValueError", f"not a valid {cls.name}")
        obj = AObj(cls, self.serial)
        if cls.kind == "exc":
            obj.attrs["args"] = tuple(args)
            init, _ = cls.lookup("__init__")
            if init is not None:
                self.call_fn(init, [obj] + args, kw)
            return obj
        nw, _ = cls.lookup("__new__")
        if nw is not None:
            raise Inconclusive(f"{cls.name}.__new__")
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call_fn(init, [obj] + args, kw)
            return obj
        if cls.fields is not None:
            flds = cls.fields
            kw = dict(kw)
            for i, (f, d) in enumerate(flds):
                if i < len(args):
                    obj.attrs[f] = args[i]
                elif f in kw:
                    obj.attrs[f] = kw.pop(f)
                elif d is not None:
                    obj.attrs[f] = d[1] if d[0] == "v" else self.call(d[1], [], {})
                else:
                    self.raise_("TypeError", f"{cls.name}() missing argument {f}")
            if len(args) > len(flds) or kw:
                for k in kw:
                    if k not in dict(flds):
                        self.raise_("TypeError", f"{cls.name}() got an unexpected keyword argument {k}")
                if len(args) > len(flds):
                    self.raise_("TypeError", f"{cls.name}() too many arguments")
            pi, _ = cls.lookup("__post_init__")
            if pi is not None:
                self.call_fn(pi, [obj], {})
            return obj
        if args or kw:
            if not cls.ext_bases:
                self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return obj

    # native methods of builtin values
    def call_bmeth(self, o, name, args, kw):
        return lib.call_method(self, o, name, args, kw)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        R = self.R
        R.steps += 1
        if R.steps > self.MAX_STEPS:
            raise Inconclusive("step budget exhausted")
        R.cur = st
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Inconclusive(f"statement {type(st).__name__}")
        m(st, env)

    def x_Pass(self, st, env):
        pass

    def x_Expr(self, st, env):
        self.eval(st.value, env)

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Global(self, st, env):
        env.globals_ = tuple(env.globals_) + tuple(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            v = self.eval(st.value, env)
            r = self.inplace(type(st.op).__name__, cur, v)
            self.store(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env)
            self.setattr(o, t.attr, self.inplace(type(st.op).__name__, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            v = self.eval(st.value, env)
            self.setitem(o, k, self.inplace(type(st.op).__name__, cur, v))

    def inplace(self, op, cur, v):
        cur = self.norm(cur)
        if isinstance(cur, Sym) and self.kinds(cur) == frozenset(["list"]) and cur in self.R.mat:
            cur = self.R.mat[cur]
        if op == "Add" and isinstance(cur, AList):
            self.touch(cur)
            cur.items.extend(self.items_of(v))
            return cur
        if op == "BitOr" and isinstance(cur, (ASet, ADict)):
            lib.call_method(self, cur, "update", [v], {})
            return cur
        return self.binop(op, cur, v)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.norm(self.eval(t.value, env))
                if isinstance(o, AObj):
                    self.touch(o)
                    o.attrs.pop(t.attr, None)
                else:
                    raise Inconclusive("del attribute")

    def x_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        self.R.branches.add((id(st), c))
        self.exec_block(st.body if c else st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_("AssertionError", "")

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise cur[-1]
            self.raise_("RuntimeError", "no active exception")
        v = self.eval(st.exc, env)
        if isinstance(v, ACls):
            v = self.instantiate(v, [], {})
        raise AbsRaise(v, self.where())

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except AbsRaise as e:
                for h in st.handlers:
                    t = self.eval(h.type, env) if h.type is not None else self.exc_cls["BaseException"]
                    if self.exc_matches(e.exc, t):
                        if h.name:
                            env.vars[h.name] = e.exc
                        hs = getattr(self, "_handling", None)
                        if hs is None:
                            hs = self._handling = []
                        hs.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        sup = []
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if isinstance(v, PyConst) and isinstance(v.v, tuple) and v.v[0] == "suppress":
                sup.extend(v.v[1])
                continue
            if isinstance(v, AObj):
                m, _ = v.cls.lookup("__enter__")
                if m is not None:
                    r = self.call(BoundM(m, v), [], {})
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, r, env)
                    continue
            raise Inconclusive("with statement")
        try:
            self.exec_block(st.body, env)
        except AbsRaise as e:
            if any(self.exc_matches(e.exc, t) for t in sup):
                return
            raise

    def x_For(self, st, env):
        seq = self.eval(st.iter, env)
        items, exc = self.iterate(seq)
        focus = [x for x in items if isinstance(x, Rest)]
        snap = self.list_snapshot() if focus else None
        broke = False
        for x in items:
            if isinstance(x, Rest):
                continue
            try:
                self.assign(st.target, x, env)
                self.exec_block(st.body, env)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if focus:
            self.list_align(snap, focus)
        if broke:
            return
        if exc is not None:
            raise exc
        self.exec_block(st.orelse, env)

    # lists appended to while walking a focused list get the other elements' images too
    def list_snapshot(self):
        self.R.appends = getattr(self.R, "appends", [])
        self.R.appends.append({})
        return None

    def note_append(self, lst, n=1):
        for fr in getattr(self.R, "appends", []):
            if lst.born == self.serial or True:
                fr.setdefault(id(lst), [lst, 0])[1] += n

    def list_align(self, snap, focus):
        fr = self.R.appends.pop()
        labels = []
        for r in focus:
            if r.label not in labels:
                labels.append(r.label)
        lab = labels[0]
        for lst, n in fr.values():
            if n == 1 and isinstance(lst, AList) and len(lst.items) == 1 and not isinstance(lst.items[0], Rest):
                lst.items[:] = [Rest(lab, 0), lst.items[0], Rest(lab, 1)]
            elif isinstance(lst, AList):
                lst.items.append(Rest(self.sym("accum", lst, lab, kinds=["list"]), 1))

    def x_While(self, st, env):
        n = 0
        broke = False
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 60:
                raise Inconclusive("loop bound")
            try:
                self.exec_block(st.body, env)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, env)

    def x_FunctionDef(self, st, env):
        fn = self.make_fn(st, env)
        v = fn
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env)
        self.store(st.name, v, env)

    def x_AsyncFunctionDef(self, st, env):
        raise Inconclusive("async function")

    def decorate(self, d, v, env):
        f = self.eval(d, env)
        if isinstance(f, BType) and f.name == "property":
            return PropV(v)
        if isinstance(f, Builtin):
            if f.name == "classmethod":
                return ClassM(v)
            if f.name == "staticmethod":
                return StaticM(v)
        if isinstance(f, Ext):
            p = f.path
            if p in ("abc.abstractmethod", "typing.overload", "typing.final"):
                return v
            if p.startswith("functools.lru_cache") or p.startswith("functools.cache"):
                x = v.fn if isinstance(v, (ClassM, StaticM)) else v
                if isinstance(x, Fn):
                    x.memo = p
                if p == "functools.cached_property":
                    return PropV(v)
                return v
            if p == "functools.cached_property":
                v.memo = p
                return PropV(v)
            if p.startswith("dataclasses.dataclass"):
                return self.make_dataclass(v)
            if p == "functools.total_ordering":
                return v
            if p == "abc.abstractproperty":
                return PropV(v)
        if isinstance(f, PyConst) and isinstance(f.v, tuple):
            if f.v[0] == "wraps":
                return v
            if f.v[0] == "memo":
                x = v.fn if isinstance(v, (ClassM, StaticM)) else v
                if isinstance(x, Fn):
                    x.memo = "functools.lru_cache"
                return v
            if f.v[0] == "dataclass":
                return self.make_dataclass(v)
        if isinstance(f, tuple):
            return PropV(f[1].get, v)
        return self.call(f, [v], {})

    def make_fn(self, st, env):
        fr = env.frame
        owner = None
        q = []
        e = env
        cls = None
        if env.is_class:
            cls = env.vars.get("$class")
        qn = st.name if not isinstance(st, ast.Lambda) else "<lambda>"
        if env.is_class:
            qn = env.vars["$qual"] + "." + qn
        elif env.frame is not None:
            qn = env.frame.fn.qual.split(":")[-1] + ".<locals>." + qn
        fn = Fn(qn.split(".")[-1], f"{env.mod.name}:{qn}", st, self.closure_env(env), env.mod, None)
        fn.born = self.serial
        if env.is_class:
            env.vars.setdefault("$fns", []).append(fn)
        elif env.frame is not None:
            fn.owner = env.frame.fn.owner
        a = st.args
        fn.defaults = [self.eval(d, env) for d in a.defaults]
        fn.kwdefaults = {p.arg: self.eval(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults)
                         if d is not None}
        fn.isgen = not isinstance(st, ast.Lambda) and has_yield(st)
        return fn

    def closure_env(self, env):
        while env is not None and env.is_class:
            env = env.parent
        return env

    def x_ClassDef(self, st, env):
        bases, ext = [], []
        for b in st.bases:
            v = self.eval(b, env)
            if isinstance(v, ACls):
                bases.append(v)
            else:
                ext.append(v)
        q = st.name
        if env.is_class:
            q = env.vars["$qual"] + "." + q
        cenv = Env(env, env.mod, frame=env.frame, is_class=True)
        cenv.vars["$qual"] = q
        self.exec_block(st.body, cenv)
        ns = {k: v for k, v in cenv.vars.items() if not k.startswith("$")}
        cls = ACls(st.name, f"{env.mod.name}:{q}", bases, ns, self.serial)
        cls.node = st
        cls.ext_bases = ext
        cls.kind = None
        for fn in cenv.vars.get("$fns", []):
            fn.owner = cls
        # nested helper functions in class bodies
        if any(isinstance(x, Ext) and x.path.startswith("enum.") for x in ext) or any(
                b.kind == "enum" for b in bases):
            cls.kind = "enum"
            for k, v in list(ns.items()):
                if k.startswith("_") or isinstance(v, (Fn, PropV, ClassM, StaticM)):
                    continue
                m = AObj(cls, 0)
                m.attrs["$name"], m.attrs["$value"] = k, v
                ns[k] = m
        elif any(b.kind == "exc" for b in bases):
            cls.kind = "exc"
        cls.fields = None
        cls.ns["$ann"] = [(s.target.id, s.value is not None) for s in st.body
                          if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        v = cls
        if any(b.fields is not None for b in bases) and not st.decorator_list:
            for b in bases:
                if b.fields is not None:
                    cls.fields = b.fields
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env)
        self.store(st.name, v, env)

    def make_dataclass(self, cls):
        flds = {}
        for c in reversed(cls.mro):
            for n, hasd in c.ns.get("$ann", ()):
                if c is cls or c.fields is not None:
                    d = None
                    if hasd:
                        dv = c.ns.get(n)
                        if isinstance(dv, PyConst) and isinstance(dv.v, tuple) and dv.v[0] == "field":
                            d = dv.v[1]
                        else:
                            d = ("v", dv)
                    flds[n] = d
        cls.fields = list(flds.items())
        return cls

    def x_Import(self, st, env):
        for al in st.names:
            top = al.name.split(".")[0]
            if top == self.pkg:
                m = self.module(al.name)
                if m is None:
                    self.raise_("ImportError", al.name)
                self.store(al.asname or top, m if al.asname else self.module(top), env)
            else:
                self.store(al.asname or top, Ext(al.name if al.asname else top), env)

    def x_ImportFrom(self, st, env):
        name = st.module or ""
        if st.level:
            base = env.mod.name.split(".")
            isdir = os.path.isdir(os.path.join(self.root, *base))
            up = base[: len(base) - st.level + (1 if isdir else 0)]
            name = ".".join(up + ([name] if name else []))
        if name.split(".")[0] == self.pkg:
            m = self.module(name)
            if m is None:
                self.raise_("ImportError", name)
            for al in st.names:
                if al.name == "*":
                    for k, v in m.vars.items():
                        if not k.startswith("_"):
                            self.store(k, v, env)
                    continue
                if al.name in m.vars:
                    v = m.vars[al.name]
                else:
                    v = self.module(name + "." + al.name)
                    if v is None:
                        self.raise_("ImportError", f"{name}.{al.name}")
                self.store(al.asname or al.name, v, env)
        else:
            for al in st.names:
                v = ext_member(name + "." + al.name)
                if isinstance(v, Ext) and v.path == "typing.TYPE_CHECKING":
                    v = False
                self.store(al.asname or al.name, v, env)

    def x_Match(self, st, env):
        subj = self.eval(st.subject, env)
        for case in st.cases:
            if self.match_pat(case.pattern, subj, env):
                if case.guard is None or self.truth(self.eval(case.guard, env)):
                    self.exec_block(case.body, env)
                    return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass):
            if not self.isinstance_(v, self.eval(p.cls, env)):
                return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pat(q, self.getattr(v, n), env):
                    return False
            if p.patterns:
                if len(p.patterns) == 1:
                    return self.match_pat(p.patterns[0], v, env)
                raise Inconclusive("positional class pattern")
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.norm(v)
            if isinstance(v, (tuple, AList)):
                items = list(v) if isinstance(v, tuple) else v.items
                if any(isinstance(q, ast.MatchStar) for q in p.patterns) or any(isinstance(x, Rest) for x in items):
                    raise Inconclusive("star pattern")
                return len(items) == len(p.patterns) and all(
                    self.match_pat(q, x, env) for q, x in zip(p.patterns, items))
            return False
        raise Inconclusive("pattern")

    # ------------------------------------------------------------------ names
    def store(self, name, v, env):
        if name in env.globals_:
            self.touch(env.mod)
            env.mod.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.is_class:
                    e.vars[name] = v
                    return
                e = e.parent
        if env.is_comp:
            env.vars[name] = v
            return
        env.vars[name] = v

    def name(self, n, env):
        e = env
        first = True
        while e is not None:
            if n in e.vars and (first or not e.is_class):
                return e.vars[n]
            if not e.is_comp:
                first = False
            e = e.parent
        m = env.mod
        if n in m.vars:
            return m.vars[n]
        v = lib.builtin_name(self, n)
        if v is not None:
            return v[0]
        self.raise_("NameError", f"name {n!r} is not defined")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Inconclusive("assignment target")

    def unpack(self, elts, v, env):
        v = self.norm(v)
        if isinstance(v, Sym) and self.domain(v) is not None:
            v = self.force(v)
        if isinstance(v, Sym) and (v.hv or self.kinds(v) >= frozenset(["other"])):
            for i, e in enumerate(elts):
                self.assign(e, self.sym("unpack", v, i), env)
            return
        if isinstance(v, Sym) and v.op == "split":
            for i, e in enumerate(elts):
                self.assign(e, self.sym("part", v, i, kinds=["str"]), env)
            return
        items = self.items_of(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if any(isinstance(x, Rest) for x in items):
            raise Inconclusive("unpacking a list of unknown length")
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i], self.new_list(items[i:len(items) - after]), env)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            self.raise_("ValueError", "wrong number of values to unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env):
        R = self.R
        R.steps += 1
        if R.steps > self.MAX_STEPS:
            raise Inconclusive("step budget exhausted")
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n, env)

    def e_unknown(self, n, env):
        raise Inconclusive(f"expression {type(n).__name__} at {self.where()}")

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.name(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(o, (Ext, BType)):
            return o
        return self.getitem(o, self.eval(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, env):
        out = self.elts(n.elts, env)
        if any(isinstance(x, Rest) for x in out):
            return self.new_list(out)
        return tuple(out)

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.items_of(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_List(self, n, env):
        return self.new_list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.new_set(self.elts(n.elts, env))

    def e_Dict(self, n, env):
        d = ADict(self.serial)
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.norm(self.eval(v, env))
                if isinstance(x, ADict):
                    d.items.update(x.items)
                    if x.open is not None:
                        d.open = x.open
                elif isinstance(x, Sym):
                    d.open = x
                else:
                    raise Inconclusive("dict unpacking")
            else:
                kv = self.eval(k, env)
                vv = self.eval(v, env)
                d.items[self.hk(kv)] = (kv, vv)
        return d

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t or not is_and and t:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.norm(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.sym("neg", v, kinds=["int", "float"])
        if isinstance(n.op, ast.UAdd) and isinstance(v, (int, float)):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        return self.havoc("unary operator")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if is_scalar(a) and is_scalar(b):
            try:
                import operator as o
                f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv,
                     "Mod": o.mod, "Pow": o.pow, "BitOr": o.or_, "BitAnd": o.and_, "BitXor": o.xor,
                     "LShift": o.lshift, "RShift": o.rshift}[op]
                if op == "Pow" and isinstance(b, int) and b > 1000:
                    return self.havoc("pow")
                return f(a, b)
            except TypeError:
                self.raise_("TypeError", f"unsupported operand types for {op}")
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "")
            except Exception:
                return self.havoc("arithmetic")
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, AList) and isinstance(b, AList):
                return self.new_list(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, (AList, str, int, type(None))) or \
                    isinstance(b, tuple) and isinstance(a, (AList, str, int, type(None))):
                self.raise_("TypeError", "can only concatenate tuple")
            if isinstance(a, AList) and isinstance(b, Sym):
                return self.new_list(a.items + self.items_of(b))
            if isinstance(a, Sym) and isinstance(b, AList):
                return self.new_list(self.items_of(a) + b.items)
        if op == "BitOr":
            if isinstance(a, ADict) and isinstance(b, ADict):
                d = ADict(self.serial, open_=b.open or a.open)
                d.items = dict(a.items)
                d.items.update(b.items)
                return d
            if isinstance(a, ASet) and isinstance(b, ASet):
                s = ASet(self.serial, {**a.items, **b.items}, a.rest or b.rest)
                return s
            if isinstance(a, (Ext, BType, ACls)) or isinstance(b, (Ext, BType, ACls)):
                fa = a if isinstance(a, tuple) else (a,)
                fb = b if isinstance(b, tuple) else (b,)
                return fa + fb
        if op in ("Sub", "BitAnd") and isinstance(a, ASet) and isinstance(b, (ASet, Iter, AList)):
            return lib.call_method(self, a, "difference" if op == "Sub" else "intersection", [b], {})
        if op == "Mod" and isinstance(a, str):
            return self.sym("fmt", a, b, kinds=["str"])
        if op == "Mult" and isinstance(a, AList) and isinstance(b, int):
            return self.new_list(a.items * b)
        if isinstance(a, AObj) or isinstance(b, AObj):
            nm = {"Add": "add", "Sub": "sub", "BitOr": "or", "BitAnd": "and", "Mult": "mul", "Mod": "mod"}.get(op)
            if nm and isinstance(a, AObj):
                m, _ = a.cls.lookup(f"__{nm}__")
                if m is not None:
                    return self.call(BoundM(m, a), [b], {})
            if self.kind(a) in ("none", "invalid", "missing") or self.kind(b) in ("none", "invalid", "missing"):
                self.raise_("TypeError", "unsupported operand")
        ka, kb = self._okind(a), self._okind(b)
        if op == "Add":
            if ka <= frozenset(["str"]) and kb <= frozenset(["str"]):
                return self.sym("concat", a, b, kinds=["str"])
            if ka <= frozenset(["str"]) or kb <= frozenset(["str"]):
                other, k = (b, kb) if ka <= frozenset(["str"]) else (a, ka)
                if isinstance(other, Sym):
                    if not self.split_kind(other, ["str"], f"{short(other)} is a string"):
                        self.raise_("TypeError", "can only concatenate str")
                    return self.sym("concat", a, b, kinds=["str"])
                self.raise_("TypeError", "can only concatenate str")
        if ka <= NUM and kb <= NUM:
            if op == "Add" and (b == 0 if not isinstance(b, Sym) else False):
                return a
            ks = ["int"] if ka <= frozenset(["int", "bool"]) and kb <= frozenset(["int", "bool"]) and op != "Div" else ["int", "float"]
            s = self.sym("arith" + op, a, b, kinds=ks)
            if op in ("Add", "Sub"):
                sgn = 1 if op == "Add" else -1
                if not isinstance(b, Sym) and b * sgn > 0 and isinstance(a, Sym):
                    self.R.order.append((a, s, True))
                elif not isinstance(b, Sym) and b * sgn < 0 and isinstance(a, Sym):
                    self.R.order.append((s, a, True))
                elif op == "Add" and not isinstance(a, Sym) and a > 0:
                    self.R.order.append((b, s, True))
            return s
        if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
            for x in (a, b):
                if isinstance(x, Sym) and not x.hv:
                    if not self.split_kind(x, NUM, f"{short(x)} is a number"):
                        self.raise_("TypeError", "unsupported operand")
            return self.binop(op, a, b) if not any(isinstance(x, Sym) and x.hv for x in (a, b)) else self.havoc("arithmetic")
        if ka & frozenset(["none"]) == ka or kb & frozenset(["none"]) == kb:
            self.raise_("TypeError", "unsupported operand")
        return self.havoc(f"operator {op}")

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            if not self.compare(op, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        t = type(op).__name__
        if t == "Eq":
            return self.eq(a, b)
        if t == "NotEq":
            a2 = self.norm(a)
            if isinstance(a2, AObj) and a2.cls.kind not in ("enum",):
                m, _ = a2.cls.lookup("__ne__")
                if m is not None:
                    return self.truth(self.call(BoundM(m, a2), [b], {}))
            return not self.eq(a, b)
        if t == "Is":
            return self.is_(a, b)
        if t == "IsNot":
            return not self.is_(a, b)
        if t == "In":
            return self.contains(b, a)
        if t == "NotIn":
            return not self.contains(b, a)
        a2, b2 = self.norm(a), self.norm(b)
        if isinstance(a2, ASet) and isinstance(b2, ASet):
            nm = {"LtE": "issubset", "GtE": "issuperset"}.get(t)
            if nm:
                return self.truth(lib.call_method(self, a2, nm, [b2], {}))
            return self.truth(self.havoc("set comparison"))
        return self.order_test(a, b, {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[t])

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.is_comp:
            e = e.parent
        self.assign(n.target, v, e)
        return v

    def e_Lambda(self, n, env):
        return self.make_fn(n, env)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.norm(self.eval(v.value, env))
                if isinstance(x, Sym) and self.domain(x) is not None:
                    x = self.force(x)
                if is_scalar(x) and v.format_spec is None:
                    parts.append({-1: str, 115: str, 114: repr, 97: ascii}[v.conversion](x))
                elif isinstance(x, AObj) and v.format_spec is None and \
                        x.cls.lookup("__repr__")[0] is not None and x.cls.kind not in ("enum", "exc"):
                    r = self.norm(self.call(BoundM(x.cls.lookup("__repr__")[0], x), [], {}))
                    parts.append(r)
                else:
                    parts.append(x)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.sym("fmt", *parts, kinds=["str"])

    def e_FormattedValue(self, n, env):
        return self.sym("fmt", self.eval(n.value, env), kinds=["str"])

    def e_Starred(self, n, env):
        return self.eval(n.value, env)

    def e_Yield(self, n, env):
        fr = env.frame
        v = self.eval(n.value, env) if n.value is not None else None
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, n, env):
        fr = env.frame
        fr.yields.extend(self.items_of(self.eval(n.value, env)))
        return None

    # comprehensions
    def comp(self, gens, env, elt, out, first=None):
        """Evaluate generators, appending elt() results (or Rest) to out."""
        def rec(i, env_):
            if i == len(gens):
                out.append(elt(env_))
                return 1
            g = gens[i]
            seq = first if (i == 0 and first is not None) else self.eval(g.iter, env_)
            items, exc = self.iterate(seq)
            n = 0
            rests = [x for x in items if isinstance(x, Rest)]
            start = len(out)
            dropped = False
            for x in items:
                if isinstance(x, Rest):
                    out.append(x)
                    continue
                e2 = env_
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, e2)):
                        ok = False
                        break
                if ok:
                    n += rec(i + 1, e2)
                else:
                    dropped = True
            if rests and (g.ifs or i + 1 < len(gens)):
                lab = self.sym("filtered", rests[0].label, id(g), kinds=["list"])
                seg = out[start:]
                if any(not isinstance(x, Rest) for x in seg) or not dropped:
                    out[start:] = [Rest(lab, x.side) if isinstance(x, Rest) else x for x in seg]
                else:
                    # nothing is kept of the element looked at: as in a loop that appends, nothing is kept
                    out[start:] = []
            if exc is not None:
                raise exc
            return n
        rec(0, env)

    def comp_env(self, env):
        e = Env(env, env.mod, frame=env.frame, is_comp=True)
        return e

    def e_ListComp(self, n, env):
        first = self.eval(n.generators[0].iter, env)
        ce = self.comp_env(env)
        out = []
        self.comp(n.generators, ce, lambda e: self.eval(n.elt, e), out, first)
        return self.new_list(out)

    def e_SetComp(self, n, env):
        first = self.eval(n.generators[0].iter, env)
        ce = self.comp_env(env)
        out = []
        self.comp(n.generators, ce, lambda e: self.eval(n.elt, e), out, first)
        return self.new_set(out)

    def e_DictComp(self, n, env):
        first = self.eval(n.generators[0].iter, env)
        ce = self.comp_env(env)
        out = []
        self.comp(n.generators, ce, lambda e: (self.eval(n.key, e), self.eval(n.value, e)), out, first)
        d = ADict(self.serial)
        for x in out:
            if isinstance(x, Rest):
                d.open = x.label if isinstance(x.label, Sym) else self.sym("rest", x.label, kinds=["dict"])
            else:
                d.items[self.hk(x[0])] = x
        return d

    def e_GeneratorExp(self, n, env):
        first = self.eval(n.generators[0].iter, env)
        return LazyGen(n, env, first)

    def gen_items(self, g):
        if g.cache is None:
            ce = self.comp_env(g.env)
            out = []
            exc = None
            try:
                self.comp(g.node.generators, ce, lambda e: self.eval(g.node.elt, e), out, g.first)
            except AbsRaise as e:
                exc = e
            g.cache = (out, exc)
            return out, exc
        return [], None

    def gen_lazy(self, g, visit):
        """Feed elements to visit(x) one at a time; stop when it returns True."""
        class Stop(Exception):
            pass
        ce = self.comp_env(g.env)

        class Out(list):
            def append(s, x):
                if visit(x):
                    raise Stop()
        try:
            o = Out()
            self.comp(g.node.generators, ce, lambda e: self.eval(g.node.elt, e), o, g.first)
        except Stop:
            pass
        g.cache = ([], None)

    def e_Call(self, n, env):
        f = self.eval(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items_of(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.norm(self.eval(k.value, env))
                if isinstance(d, ADict) and d.open is None:
                    for kk, vv in d.items.values():
                        kw[kk] = vv
                elif isinstance(d, Sym) or isinstance(d, ADict):
                    kw["**"] = d
                else:
                    raise Inconclusive("keyword unpacking")
            else:
                kw[k.arg] = self.eval(k.value, env)
        if isinstance(f, Builtin) and f.name == "super" and not args:
            fr = env.frame
            return SuperV(fr.fn.owner, fr.self_)
        if isinstance(f, Builtin) and f.name == "locals":
            return self.havoc("locals")
        cur = self.R.cur
        r = self.call(f, args, kw)
        self.R.cur = cur
        return r


ISS_METHODS = {"merge", "add", "get", "pop", "can_proceed", "has_issues", "to_dict"}


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False

def ext_member(path):
    mod, _, n = path.rpartition(".")
    if mod in ("math", "string", "sys") and n in ("inf", "nan", "pi", "e", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "whitespace", "punctuation", "maxsize"):
        return getattr(__import__(mod), n)
    return Ext(path)


from . import lib  # noqa: E402  (lib needs the names above)
