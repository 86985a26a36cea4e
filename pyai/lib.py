"""Transfer functions of the Python builtins and library calls the analysed package uses."""
import re as _re

from .values import *
from .core import BT, BT_OF_KIND, EXC_NAMES, is_scalar, ISS_METHODS

BUILTIN_FUNCS = {
    "isinstance", "len", "getattr", "hasattr", "setattr", "enumerate", "zip", "any", "all", "sorted",
    "reversed", "map", "filter", "min", "max", "sum", "iter", "next", "print", "repr", "issubclass",
    "callable", "super", "classmethod", "staticmethod", "NotImplemented", "abs", "round", "id", "hash",
    "ord", "chr", "vars", "dir", "locals", "noop", "ascii", "format", "divmod", "delattr"}


def builtin_name(I, n):
    if n in BT:
        return (BT[n],)
    if n in EXC_NAMES:
        return (I.exc_cls[n],)
    if n in BUILTIN_FUNCS:
        return (Builtin(n),)
    if n == "Ellipsis":
        return (Ext("Ellipsis"),)
    if n == "__name__":
        return ("",)
    return None


# ---------------------------------------------------------------------- external calls
def call_ext(I, path, args, kw):
    p = path
    if p.startswith("re."):
        return ext_re(I, p[3:], args, kw)
    if p.startswith("operator."):
        return ext_operator(I, p[9:], args, kw)
    if p == "functools.partial":
        return PartialV(args[0], list(args[1:]), dict(kw))
    if p == "functools.wraps":
        return PyConst(("wraps",))
    if p in ("functools.lru_cache", "functools.cache"):
        if args and isinstance(args[0], Fn):
            args[0].memo = p
            return args[0]
        return PyConst(("memo",))
    if p == "functools.reduce":
        items = I.items_of(args[1])
        if any(isinstance(x, Rest) for x in items):
            return I.havoc("reduce over an unknown list")
        acc = args[2] if len(args) > 2 else items.pop(0)
        for x in items:
            acc = I.call(args[0], [acc, x], {})
        return acc
    if p in ("copy.copy", "copy.deepcopy"):
        return deepcopy(I, args[0]) if p.endswith("deepcopy") else shallow(I, args[0])
    if p == "dataclasses.field":
        if "default" in kw:
            return PyConst(("field", ("v", kw["default"])))
        if "default_factory" in kw:
            return PyConst(("field", ("f", kw["default_factory"])))
        return PyConst(("field", None))
    if p == "dataclasses.dataclass":
        if args and isinstance(args[0], ACls):
            return I.make_dataclass(args[0])
        return PyConst(("dataclass",))
    if p == "collections.defaultdict":
        d = ADict(I.serial, default=args[0] if args else None)
        if len(args) > 1:
            call_method(I, d, "update", [args[1]], {})
        return d
    if p in ("collections.OrderedDict",):
        return call_builtin(I, "dict", args, kw)
    if p == "contextlib.suppress":
        return PyConst(("suppress", list(args)))
    if p in ("typing.TypeVar", "typing.NewType", "typing.cast"):
        return args[1] if p == "typing.cast" else Ext(p + ":" + str(args[0]))
    if p == "datetime.datetime.fromisoformat" or p == "datetime.fromisoformat":
        v = I.force(args[0])
        if not (isinstance(v, str) or isinstance(v, Sym)):
            I.raise_("TypeError", "fromisoformat: argument must be str")
        if isinstance(v, Sym) and not I.split_kind(v, ["str"], f"{short(v)} is a string"):
            I.raise_("TypeError", "fromisoformat: argument must be str")
        if isinstance(v, Sym) and v.op == "isoformat" and len(v.args) == 1:      # the library's own inverse
            return v.args[0]
        s = I.sym("isdate", v, kinds=["bool"])
        if isinstance(v, str):          # a constant: folded
            import datetime as _dt
            try:
                _dt.datetime.fromisoformat(v)
                ok = True
            except ValueError:
                ok = False
        else:
            ok = I.sym_truth(s)
        if not ok:
            I.raise_("ValueError", "Invalid isoformat string")
        return I.sym("date", v, kinds=["datetime"])
    if p in ("urllib.parse.urlparse", "urllib.parse.urlsplit"):
        v = I.norm(args[0])
        if isinstance(v, str) and len(args) == 1 and not kw:        # a constant: folded
            import urllib.parse as _up
            try:
                r = (_up.urlparse if p.endswith("urlparse") else _up.urlsplit)(v)
                parts = {n: getattr(r, n) for n in ("scheme", "netloc", "path", "query", "fragment", "hostname", "username", "password")}
                parts["params"] = getattr(r, "params", "")
            except ValueError:
                I.raise_("ValueError", "Invalid URL")
            seq = tuple(r)
            return Stub("urlparse result", get={n: (lambda I_, x=x: x) for n, x in parts.items()}, getitem=lambda I_, k: seq[k] if isinstance(k, int) else parts.get(k),
                        iter=lambda I_: seq)
        s = I.sym("urlparses", v, kinds=["bool"])
        if not I.sym_truth(s):
            I.raise_("ValueError", "Invalid URL")

        def part(name):
            return lambda I_: I_.sym("url." + name, v, kinds=["str"])
        names = ["scheme", "netloc", "path", "params", "query", "fragment"]
        if p.endswith("urlsplit"):
            names.remove("params")

        def seq(I_):
            return tuple(I_.sym("url." + n, v, kinds=["str"]) for n in names)
        return Stub("urlparse result", get={n: part(n) for n in names + ["hostname", "username", "password"]},
                    getitem=lambda I_, k: seq(I_)[k] if isinstance(k, int) else I_.havoc("part of a URL"), iter=seq)
    if p == "base64.b64decode" or p == "binascii.a2b_base64":
        v = I.norm(args[0] if args else kw["s"])
        if isinstance(v, str) or isinstance(v, Sym) and "str" in I.kinds(v) and I.split_kind(v, ["str"], f"{short(v)} is a string"):
            try:
                v = encode(I, v, "ascii")
            except AbsRaise:
                I.raise_("ValueError", "string argument should contain only ASCII characters")
        st = any(I.truth(x) for x in [kw.get("validate", False)] + list(args[2:3]))
        s = I.sym("b64decodes" + ("!" if st else ""), v, kinds=["bool"])
        if not I.sym_truth(s):
            raise AbsRaise(AObj(I.ext_exc("binascii.Error", "ValueError"), I.serial), I.where())
        return I.sym("b64d", v, kinds=["other"])
    if p == "base64.b64encode":
        v = I.norm(args[0])
        return I.sym("b64e", v, kinds=["other"])
    if p == "itertools.chain":
        out = []
        for a in args:
            out += I.items_of(a)
        return Iter(out, None, I.serial)
    if p == "itertools.chain.from_iterable":
        out = []
        for a in I.items_of(args[0]):
            if isinstance(a, Rest):
                out.append(a)
            else:
                out += I.items_of(a)
        return Iter(out, None, I.serial)
    if p == "itertools.count":
        raise Inconclusive("itertools.count")
    if p == "itertools.islice":
        return I.getitem(I.new_list(I.items_of(args[0])), slice(*(
            [None, args[1]] if len(args) == 2 else args[1:])))
    if p == "math.isfinite" or p == "math.isnan" or p == "math.isinf":
        v = I.norm(args[0])
        import math
        if isinstance(v, (int, float)):
            return getattr(math, p[5:])(v)
        if isinstance(v, Sym):
            if not I.split_kind(v, NUM, f"{short(v)} is a number"):
                I.raise_("TypeError", "must be real number")
            if not I.split_kind(v, ["float"], f"{short(v)} is a float"):
                return p == "math.isfinite"
            c = fclass(I, v)
            return {"isfinite": c in ("integral", "fractional"), "isnan": c == "nan", "isinf": c == "inf"}[p[5:]]
        I.raise_("TypeError", "must be real number")
    if p == "warnings.warn" or p.startswith("logging."):
        return None if p == "warnings.warn" else Ext(p + "()")
    if p.startswith("enum.auto"):
        return I.havoc("enum.auto")
    if p == "types.MappingProxyType":
        return args[0]
    if p.startswith("havoc:") or True:
        if I.serial == 0:
            return Ext(p + "()")
        for a in list(args) + list(kw.values()):
            if isinstance(a, Heap) and not isinstance(a, AObj):
                I.R.soft.append(f"mutable argument given to {p}")
        return I.havoc(f"call of {p}")


def fclass(I, v):
    """Classify a float: integral / fractional / inf / nan."""
    k = ("fclass", v)
    R = I.R
    if k not in R.isx:
        R.isx[k] = I.choose(f"{short(v)} as a float", ["integral", "fractional", "inf", "nan"], (v,))
    return R.isx[k]


class Rx:
    """A compiled regular expression with constant pattern."""
    __slots__ = ("pattern", "flags", "rx")

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags
        self.rx = _re.compile(pattern, flags)

    def __repr__(self):
        return f"regex {self.pattern!r}/{self.flags}"


RE_FLAGS = {"re.DOTALL": _re.DOTALL, "re.S": _re.S, "re.IGNORECASE": _re.I, "re.I": _re.I,
            "re.MULTILINE": _re.M, "re.M": _re.M, "re.ASCII": _re.A, "re.VERBOSE": _re.X, "re.A": _re.A}


def ext_re(I, name, args, kw):
    if name == "compile":
        pat = I.norm(args[0])
        fl = 0
        for f in list(args[1:2]) + ([kw["flags"]] if "flags" in kw else []):
            for x in (f if isinstance(f, tuple) else (f,)):
                if isinstance(x, Ext):
                    if x.path not in RE_FLAGS:
                        return I.havoc("regex flags")
                    fl |= RE_FLAGS[x.path]
                elif isinstance(x, int):
                    fl |= x
        if isinstance(pat, str):
            try:
                return PyConst(Rx(pat, fl))
            except _re.error:
                I.raise_("ValueError", "bad regex")
        return I.havoc("regex of unknown pattern")
    if name in ("fullmatch", "match", "search", "sub", "split", "findall", "finditer"):
        pat = I.norm(args[0])
        rx = ext_re(I, "compile", [pat] + ([kw["flags"]] if "flags" in kw else []), {}) \
            if not isinstance(pat, PyConst) else pat
        if isinstance(rx, PyConst):
            return regex_method(I, rx, name, args[1:], {})
        return I.havoc("regex call")
    if name == "escape" and isinstance(args[0], str):
        return _re.escape(args[0])
    return I.havoc(f"re.{name}")


class Mt:
    """An (unknown) match of a constant pattern against an unknown string."""
    __slots__ = ("rx", "subj", "how")

    def __init__(self, rx, subj, how):
        self.rx, self.subj, self.how = rx, subj, how

    def __repr__(self):
        return f"match of {self.rx.pattern!r} on {short(self.subj)}"


def regex_method(I, pc, name, args, kw):
    rx = pc.v
    if name == "pattern":
        return rx.pattern
    v = I.force(args[0] if name != "sub" else args[1])
    if isinstance(v, str):
        if name in ("fullmatch", "match", "search"):
            m = getattr(rx.rx, name)(v)
            return PyConst(m) if m else None
        if name == "split":
            return I.new_list(rx.rx.split(v, *[a for a in args[1:]], **kw))
        if name == "findall":
            return I.new_list([x for x in rx.rx.findall(v)])
        if name == "finditer":
            return Iter([PyConst(m) for m in rx.rx.finditer(v)], None, I.serial)
        if name == "sub" and isinstance(args[0], str):
            return rx.rx.sub(args[0], v)
        return I.havoc("regex method")
    if isinstance(v, Sym):
        if not I.split_kind(v, ["str"], f"{short(v)} is a string"):
            I.raise_("TypeError", "expected string or bytes-like object")
        if name in ("fullmatch", "match", "search"):
            m = I.sym("rematch", name, rx.pattern, v, kinds=["bool"])
            if I.sym_truth(m):
                return PyConst(Mt(rx, v, name))
            return None
        if name == "split":
            return I.sym("split", v, rx.pattern, *args[1:], kinds=["list"], ek=frozenset(["str"]))
        if name in ("finditer", "findall"):
            k = ("refind", name, rx.pattern, v)
            if k not in I.R.isx:
                I.R.isx[k] = I.choose(f"{rx.pattern!r} occurs in {short(v)}", [False, True], (v,))
            if not I.R.isx[k]:
                return I.new_list([])
            lab = I.sym("matches", rx.pattern, v, kinds=["list"])
            return I.new_list([Rest(lab, 0), PyConst(Mt(rx, v, name)), Rest(lab, 1)])
        if name == "sub":
            return I.sym("resub", rx.pattern, v, *(a for a in args if is_scalar(a)), kinds=["str"])
        return I.havoc("regex method")
    I.raise_("TypeError", "expected string or bytes-like object")


def match_method(I, m, name, args, kw):
    if isinstance(m, Mt):
        if name == "group":
            g = args[0] if args else 0
            if g == 0:
                if m.how == "fullmatch":
                    return m.subj
                return I.sym("group", m.rx.pattern, m.how, m.subj, 0, kinds=["str"])
            ks = ["str", "none"]
            return I.sym("group", m.rx.pattern, m.how, m.subj, g, kinds=ks)
        if name == "groups":
            return tuple(I.sym("group", m.rx.pattern, m.how, m.subj, g, kinds=["str", "none"])
                         for g in range(1, m.rx.rx.groups + 1))
        if name in ("start", "end"):
            return I.sym(name, m.rx.pattern, m.how, m.subj, *args, kinds=["int"])
        if name == "span":
            return (I.sym("start", m.rx.pattern, m.how, m.subj, kinds=["int"]),
                    I.sym("end", m.rx.pattern, m.how, m.subj, kinds=["int"]))
        return I.havoc("match attribute")
    r = getattr(m, name)(*args, **kw)
    return r


def ext_operator(I, name, args, kw):
    import ast
    cmp = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE,
           "is_": ast.Is, "is_not": ast.IsNot}
    n = name.strip("_")
    if name in cmp or n in cmp:
        return I.compare(cmp.get(name) or cmp[n], *args) if False else I.compare(cmp.get(name, cmp.get(n))(), args[0], args[1])
    if name == "contains":
        return I.contains(args[0], args[1])
    if name == "not_":
        return not I.truth(args[0])
    if name == "truth":
        return I.truth(args[0])
    if name == "and_":
        return I.binop("BitAnd", *args)
    if name == "or_":
        return I.binop("BitOr", *args)
    if name in ("add", "concat"):
        return I.binop("Add", *args)
    if name == "sub":
        return I.binop("Sub", *args)
    if name == "getitem":
        return I.getitem(*args)
    if name == "itemgetter":
        ks = list(args)
        if len(ks) == 1:
            return StubM(lambda I_, a, k: I_.getitem(a[0], ks[0]), "itemgetter")
        return StubM(lambda I_, a, k: tuple(I_.getitem(a[0], x) for x in ks), "itemgetter")
    if name == "attrgetter":
        ks = list(args)

        def one(I_, o, path):
            for part in path.split("."):
                o = I_.getattr(o, part)
            return o
        if len(ks) == 1:
            return StubM(lambda I_, a, k: one(I_, a[0], ks[0]), "attrgetter")
        return StubM(lambda I_, a, k: tuple(one(I_, a[0], x) for x in ks), "attrgetter")
    if name == "methodcaller":
        nm, rest = args[0], list(args[1:])
        return StubM(lambda I_, a, k: I_.call(I_.getattr(a[0], nm), rest, {}), "methodcaller")
    return I.havoc(f"operator.{name}")


def shallow(I, v):
    v = I.norm(v)
    if is_scalar(v) or isinstance(v, (Sym, tuple, Stub, ACls, Fn, BType, Ext)):
        if isinstance(v, Sym):
            return symcopy(I, v, False)
        return v
    if isinstance(v, AList):
        return I.new_list(v.items)
    if isinstance(v, ADict):
        d = ADict(I.serial, v.open, v.default)
        d.items = dict(v.items)
        return d
    if isinstance(v, ASet):
        return ASet(I.serial, v.items, v.rest)
    if isinstance(v, AObj):
        if v.cls.kind == "enum":
            return v
        o = AObj(v.cls, I.serial)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, ACont):
        # copy.copy shares the underlying dictionaries
        c = ACont(I.serial, v.base)
        c.sets = v.sets
        return c
    if isinstance(v, AIss):
        i = AIss(I.serial)
        i.entries = v.entries
        return i
    return v


def symcopy(I, v, deep):
    """Copy of an unknown value: equal to it, but a fresh object."""
    ks = I.kinds(v)
    if I.domain(v) is not None or not ks & frozenset(["list", "dict", "cont", "other"]):
        return v
    if ks == frozenset(["cont"]):
        if v in I.R.mat:
            return deepcopy(I, I.R.mat[v])
        return ACont(I.serial, base=v)
    if ks == frozenset(["dict"]):
        return ADict(I.serial, open_=v)
    if ks == frozenset(["list"]):
        return I.new_list(I.items_of(v))
    return v


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    v = I.norm(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Sym):
        return symcopy(I, v, True)
    if is_scalar(v) or isinstance(v, (Stub, ACls, Fn, BType, Ext, Rest, BoundM, StubM, PyConst)):
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, AList):
        out = I.new_list([])
        memo[id(v)] = out
        out.items = [deepcopy(I, x, memo) for x in v.items]
        return out
    if isinstance(v, ADict):
        d = ADict(I.serial, v.open, v.default)
        memo[id(v)] = d
        d.items = {k: (kk, deepcopy(I, x, memo)) for k, (kk, x) in v.items.items()}
        return d
    if isinstance(v, ASet):
        return ASet(I.serial, v.items, v.rest)
    if isinstance(v, AObj):
        if v.cls.kind == "enum" or I.kind(v) in ("invalid", "missing"):
            if I.kind(v) in ("invalid", "missing"):
                # a deep copy of a sentinel is no longer the sentinel
                if v.cls.lookup("__deepcopy__")[0] is None and v.cls.lookup("__copy__")[0] is None:
                    o = AObj(v.cls, I.serial)
                    o.tag = "copy"
                    return o
            return v
        m, _ = v.cls.lookup("__deepcopy__")
        if m is not None:
            return I.call(BoundM(m, v), [I.new_dict()], {})
        o = AObj(v.cls, I.serial)
        memo[id(v)] = o
        o.attrs = {k: deepcopy(I, x, memo) for k, x in v.attrs.items()}
        return o
    if isinstance(v, ACont):
        c = ACont(I.serial, v.base)
        c.sets = {k: deepcopy(I, x, memo) for k, x in v.sets.items()}
        return c
    if isinstance(v, AIss):
        i = AIss(I.serial)
        i.entries = list(v.entries)
        return i
    return v


# ---------------------------------------------------------------------- builtins
def call_builtin(I, name, args, kw):
    f = globals().get("b_" + name)
    if f is not None:
        return f(I, args, kw)
    if name in ("print", "noop"):
        return None
    if name == "NotImplemented":
        return I.raise_("TypeError", "not callable")
    return I.havoc(f"builtin {name}")


def b_isinstance(I, a, kw):
    return I.isinstance_(a[0], a[1])


def b_issubclass(I, a, kw):
    c, t = I.norm(a[0]), a[1]
    if isinstance(c, Sym) and I.domain(c) is not None:
        c = I.force(c)
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, ACls):
        return any(x in c.mro for x in ts if isinstance(x, ACls)) or any(
            isinstance(x, BType) and x.name == "object" for x in ts)
    if isinstance(c, BType):
        return any(isinstance(x, BType) and (x.name == c.name or x.name == "object" or
                                             (x.name, c.name) == ("int", "bool")) for x in ts)
    if isinstance(c, TypeOf):
        return I.isinstance_(c.sym, t)
    if isinstance(c, Stub) and "$sub" in c.get:
        return c.get["$sub"](I, ts)
    return I.truth(I.havoc("issubclass"))


def b_len(I, a, kw):
    return I.length(a[0])


def b_type(I, a, kw):
    v = I.norm(a[0])
    if len(a) > 1:
        return I.havoc("dynamic class creation")
    if isinstance(v, Sym):
        if I.domain(v) is not None:
            return b_type(I, [I.force(v)], kw)
        ks = I.kinds(v)
        if len(ks) == 1:
            k = next(iter(ks))
            if k in BT_OF_KIND:
                return BT[BT_OF_KIND[k]]
            if k == "cont":
                return I.container_class()
            if k == "invalid":
                return I.Invalid.cls
            if k == "missing":
                return I.Missing.cls
        return TypeOf(v)
    if isinstance(v, AObj):
        return v.cls
    if isinstance(v, ACont):
        return I.container_class()
    if isinstance(v, AIss):
        return I.gs("src.error:ValidationIssues")
    k = I.kind(v)
    if k in BT_OF_KIND:
        return BT[BT_OF_KIND[k]]
    if k in ("tuple", "set", "bytes"):
        return BT[k]
    if isinstance(v, ACls):
        return BT["type"]
    if isinstance(v, Stub):
        return v.get["__class__"](I) if "__class__" in v.get else I.havoc("type of contract object")
    return I.havoc("type()")


def b_str(I, a, kw):
    if not a:
        return ""
    v = I.norm(a[0])
    if is_scalar(v):
        return str(v)
    if isinstance(v, Sym):
        if I.domain(v) is not None:
            return b_str(I, [I.force(v)], kw)
        if I.kinds(v) == frozenset(["str"]):
            return v
        return I.sym("strof", v, kinds=["str"])
    if isinstance(v, AObj):
        if v.cls.kind == "exc":
            return I.sym("strof", v, kinds=["str"])
        if v.cls.kind == "enum":
            return I.sym("strof", v, kinds=["str"])
        for nm in ("__str__", "__repr__"):
            m, _ = v.cls.lookup(nm)
            if m is not None:
                return I.call(BoundM(m, v), [], {})
    return I.sym("strof", v, kinds=["str"])


def b_repr(I, a, kw):
    v = I.norm(a[0])
    if is_scalar(v):
        return repr(v)
    if isinstance(v, AObj):
        m, _ = v.cls.lookup("__repr__")
        if m is not None:
            return I.call(BoundM(m, v), [], {})
    return I.sym("repr", v, kinds=["str"])


b_ascii = b_repr


def b_format(I, a, kw):
    return b_str(I, a[:1], {}) if len(a) == 1 else I.sym("fmt", *a, kinds=["str"])


def b_bool(I, a, kw):
    return I.truth(a[0]) if a else False


def b_int(I, a, kw):
    if not a:
        return 0
    v = I.norm(a[0])
    if isinstance(v, Sym) and I.domain(v) is not None:
        v = I.force(v)
    if is_scalar(v):
        try:
            return int(v, *[I.norm(x) for x in a[1:]])
        except ValueError:
            I.raise_("ValueError", "invalid literal for int()")
        except OverflowError:
            I.raise_("OverflowError", "cannot convert float infinity to integer")
        except TypeError:
            I.raise_("TypeError", "int() argument")
    if isinstance(v, Sym):
        ok = NUM | {"str", "other"}
        if not I.split_kind(v, ok, f"{short(v)} can be given to int()"):
            I.raise_("TypeError", "int() argument must be a string or a number")
        if I.split_kind(v, ["str"], f"{short(v)} is a string"):
            s = I.sym("isint", v, kinds=["bool"])
            if not I.sym_truth(s):
                I.raise_("ValueError", "invalid literal for int()")
            return I.sym("int", v, kinds=["int"])
        if I.split_kind(v, ["float"], f"{short(v)} is a float"):
            c = fclass(I, v)
            if c == "inf":
                I.raise_("OverflowError", "cannot convert float infinity to integer")
            if c == "nan":
                I.raise_("ValueError", "cannot convert float NaN to integer")
            n = I.sym("int", v, kinds=["int"])
            if ("fint", n) not in I.R.isx:
                I.R.isx[("fint", n)] = True
                if c == "integral":
                    I.num_assume(n, v, "=")
                else:
                    I.num_assume(n, v, "!=")
            return n
        if I.kinds(v) <= frozenset(["int"]):
            return v
        if I.kinds(v) <= frozenset(["bool"]):
            return 1 if I.truth(v) else 0
        return I.sym("int", v, kinds=["int"])
    if isinstance(v, (AList, ADict, AObj, ACont, ASet, tuple)):
        I.raise_("TypeError", "int() argument")
    return I.havoc("int()")


def b_float(I, a, kw):
    if not a:
        return 0.0
    v = I.norm(a[0])
    if isinstance(v, Sym) and I.domain(v) is not None:
        v = I.force(v)
    if is_scalar(v):
        try:
            return float(v)
        except ValueError:
            I.raise_("ValueError", "could not convert string to float")
        except TypeError:
            I.raise_("TypeError", "float() argument")
        except OverflowError:
            I.raise_("OverflowError", "int too large to convert to float")
    if isinstance(v, Sym):
        if not I.split_kind(v, NUM | {"str", "other"}, f"{short(v)} can be given to float()"):
            I.raise_("TypeError", "float() argument")
        if I.split_kind(v, ["str"], f"{short(v)} is a string"):
            s = I.sym("isfloat", v, kinds=["bool"])
            if not I.sym_truth(s):
                I.raise_("ValueError", "could not convert string to float")
            return I.sym("float", v, kinds=["float"])
        if I.split_kind(v, ["float"], f"{short(v)} is a float"):
            return v
        if I.split_kind(v, ["int"], f"{short(v)} is an integer") and not I.truth(I.sym("fits a float", v, kinds=["bool"])):
            I.raise_("OverflowError", "int too large to convert to float")
        r = I.sym("float", v, kinds=["float"])
        if "other" not in I.kinds(v):
            I.R.isx[("fclass", r)] = "integral"
        return r
    I.raise_("TypeError", "float() argument")


def b_bytes(I, a, kw):
    if not a:
        return b""
    v = I.norm(a[0])
    if len(a) > 1 or "encoding" in kw:
        enc = I.norm(a[1] if len(a) > 1 else kw["encoding"])
        return encode(I, v, enc)
    if isinstance(v, bytes):
        return v
    return I.havoc("bytes()")


def encode(I, v, enc):
    if isinstance(v, str):
        try:
            return v.encode(enc)
        except UnicodeEncodeError:
            I.raise_("UnicodeEncodeError", "")
    if isinstance(v, Sym):
        if not I.split_kind(v, ["str"], f"{short(v)} is a string"):
            I.raise_("TypeError", "encoding without a string argument")
        if enc in ("ascii", "latin-1", "us-ascii"):
            s = I.sym("encodes", v, enc, kinds=["bool"])
            if not I.sym_truth(s):
                I.raise_("UnicodeEncodeError", "")
        return I.sym("encoded", v, kinds=["other"])
    I.raise_("TypeError", "encoding without a string argument")


def b_object(I, a, kw):
    c = I.exc_cls.get("$object")
    if c is None:
        c = I.exc_cls["$object"] = ACls("object", "builtins:object", [], {}, 0)
    return AObj(c, I.serial)


def b_list(I, a, kw):
    if not a:
        return I.new_list([])
    v = I.norm(a[0])
    items, exc = I.iterate(v)
    if exc is not None:
        raise exc
    if isinstance(v, ADict) and v.open is not None:
        pass
    return I.new_list(items)


def b_tuple(I, a, kw):
    if not a:
        return ()
    v = I.norm(a[0])
    if isinstance(v, tuple):
        return v
    items = I.items_of(v)
    if any(isinstance(x, Rest) for x in items):
        return I.new_list(items)
    return tuple(items)


def b_set(I, a, kw):
    if not a:
        return I.new_set()
    items = I.items_of(a[0])
    for x in items:
        x = I.norm(x)
        if isinstance(x, (AList, ADict)):
            I.raise_("TypeError", "unhashable type")
        if isinstance(x, ACont):
            c = I.container_class()
            if c.lookup("__eq__")[0] is not None and c.lookup("__hash__")[0] is None:
                I.raise_("TypeError", "unhashable type")
        if isinstance(x, Sym) and I.domain(x) is None and I.kinds(x) & frozenset(["list", "dict", "cont"]):
            if I.split_kind(x, ["list", "dict", "cont"], f"{short(x)} is unhashable"):
                I.raise_("TypeError", "unhashable type")
    return I.new_set(items)


b_frozenset = b_set


def b_dict(I, a, kw):
    d = ADict(I.serial)
    if a:
        v = I.norm(a[0])
        if isinstance(v, ADict):
            d.items = dict(v.items)
            d.open = v.open
        elif isinstance(v, Sym):
            if I.split_kind(v, ["dict"], f"{short(v)} is a dict"):
                d.open = v
            else:
                return I.havoc("dict() of unknown value")
        else:
            for x in I.items_of(v):
                if isinstance(x, Rest):
                    d.open = x.label if isinstance(x.label, Sym) else I.sym("rest", x.label, kinds=["dict"])
                else:
                    p = I.items_of(x)
                    d.items[I.hk(p[0])] = (p[0], p[1])
    for k, v in kw.items():
        if k == "**":
            d.open = v
        else:
            d.items[I.hk(k)] = (k, v)
    return d


def b_getattr(I, a, kw):
    n = I.force(a[1])
    if not isinstance(n, str):
        if isinstance(n, Sym):
            return I.havoc("getattr with unknown name")
        I.raise_("TypeError", "attribute name must be string")
    if len(a) > 2:
        return I.getattr(a[0], n, a[2], True)
    return I.getattr(a[0], n)


def b_setattr(I, a, kw):
    n = I.norm(a[1])
    if not isinstance(n, str):
        raise Inconclusive("setattr with unknown name")
    I.setattr(a[0], n, a[2])


def b_hasattr(I, a, kw):
    try:
        I.getattr(a[0], I.norm(a[1]))
        return True
    except AbsRaise as e:
        if isinstance(e.exc, AObj) and e.exc.cls.name == "AttributeError":
            return False
        raise


def b_enumerate(I, a, kw):
    items, exc = I.iterate(a[0])
    start = I.norm(a[1] if len(a) > 1 else kw.get("start", 0))
    out = []
    n = 0
    rest = [x for x in items if isinstance(x, Rest)]
    for x in items:
        if isinstance(x, Rest):
            out.append(x)
            continue
        if rest:
            i = I.sym("idx", rest[0].label, kinds=["int"])
            I.num_fact_len(rest[0].label)
            if start != 0:
                i = I.binop("Add", i, start)
            if len(items) - len(rest) > 1:
                i = I.sym("idxk", rest[0].label, n, kinds=["int"])
        else:
            i = I.binop("Add", n, start)
        out.append((i, x))
        n += 1
    return Iter(out, exc, I.serial)


def b_zip(I, a, kw):
    cols = []
    for x in a:
        items, exc = I.iterate(x)
        if exc is not None:
            raise exc
        cols.append(items)
    if not cols:
        return Iter([], None, I.serial)
    if all(not any(isinstance(x, Rest) for x in c) for c in cols):
        return Iter(list(zip(*cols)), None, I.serial)
    # align focused lists
    if all(len(c) == 3 and isinstance(c[0], Rest) and isinstance(c[2], Rest) and not isinstance(c[1], Rest)
           for c in cols):
        labs = {c[0].label for c in cols}
        if len(labs) == 1:
            lab = cols[0][0].label
            return Iter([Rest(lab, 0), tuple(c[1] for c in cols), Rest(lab, 1)], None, I.serial)
        l0 = cols[0][0].label
        # different lists: positions coincide or not
        I.R.soft.append("zip of unrelated lists")
        return Iter([Rest(l0, 0), tuple(c[1] for c in cols), Rest(l0, 1)], None, I.serial)
    if any(len(c) == 0 for c in cols):
        return Iter([], None, I.serial)
    I.R.soft.append("zip of lists of different shape")
    firsts = []
    for c in cols:
        nz = [x for x in c if not isinstance(x, Rest)]
        if not nz:
            return Iter([], None, I.serial)
        firsts.append(nz[0])
    lab = [x for c in cols for x in c if isinstance(x, Rest)][0].label
    return Iter([Rest(lab, 0), tuple(firsts), Rest(lab, 1)], None, I.serial)


def b_range(I, a, kw):
    v = [I.norm(x) for x in a]
    if all(isinstance(x, int) for x in v):
        r = range(*v)
        if len(r) > 400:
            raise Inconclusive("long range")
        return I.new_list(list(r))
    if len(v) == 1 and isinstance(v[0], Sym) and v[0].op == "len":
        lab = v[0].args[0]
        I.num_fact_len(lab) if isinstance(lab, Sym) else None
        if isinstance(lab, Sym) and lab in I.R.mat and not any(isinstance(x, Rest) for x in I.R.mat[lab].items):
            return I.new_list(list(range(len(I.R.mat[lab].items))))
        if not I.truth(v[0]):
            return I.new_list([])
        return I.new_list([Rest(lab, 0), I.sym("idx", lab, kinds=["int"]), Rest(lab, 1)])
    if len(v) == 1 and isinstance(v[0], Sym):
        if not I.split_kind(v[0], ["int", "bool"], f"{short(v[0])} is an integer"):
            I.raise_("TypeError", "range() needs an integer")
        out = []
        lab = I.sym("range", v[0], kinds=["list"])
        if not I.num_test(v[0], 0, ">"):
            return I.new_list([])
        return I.new_list([Rest(lab, 0), I.sym("idx", lab, kinds=["int"]), Rest(lab, 1)])
    if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], Sym):
        lab = I.sym("range", v[0], v[1], kinds=["list"])
        if not I.order_test(v[1], v[0], ">"):
            return I.new_list([])
        i = I.sym("rangeidx", lab, kinds=["int"])
        I.R.order.append((v[0], i, False))
        I.R.order.append((i, v[1], True))
        return I.new_list([Rest(lab, 0), i, Rest(lab, 1)])
    for x in v:
        if isinstance(x, (str, float, type(None), AObj)):
            I.raise_("TypeError", "range() needs an integer")
    return I.havoc("range()")


def _quant(I, a, stop_on):
    """any (stop_on True) / all (stop_on False)."""
    src = a[0]
    hit = [False]
    rests = []

    def visit(x):
        if isinstance(x, Rest):
            rests.append(x)
            return False
        if I.truth(x) is stop_on:
            hit[0] = True
            return True
        return False
    if isinstance(src, LazyGen) and src.cache is None:
        I.gen_lazy(src, visit)
    else:
        for x in I.items_of(src):
            if visit(x):
                break
    if hit[0]:
        return stop_on
    if rests:
        lab = rests[0].label
        key = ("quant", stop_on, lab, getattr(src, "node", None) and id(src.node))
        I.R.quants = getattr(I.R, "quants", [])
        if key not in I.R.isx:
            I.R.soft.append("quantifier over other elements")
            I.R.isx[key] = I.choose(f"{'some' if stop_on else 'not all'} other elements of {short(lab)} hold",
                                    [False, True])
        if I.R.isx[key]:
            return stop_on
    return not stop_on


def b_any(I, a, kw):
    return _quant(I, a, True)


def b_all(I, a, kw):
    return _quant(I, a, False)


def b_sorted(I, a, kw):
    items = I.items_of(a[0])
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if all(is_scalar(I.norm(x)) for x in items) and key is None:
        try:
            return I.new_list(sorted((I.norm(x) for x in items), reverse=I.truth(rev)))
        except TypeError:
            I.raise_("TypeError", "'<' not supported")
    if key is not None:
        keys = [I.call(key, [x], {}) for x in items if not isinstance(x, Rest)]
        I.R.events.append(("sorted", items, keys, rev, I.where()))
        if not any(isinstance(x, Rest) for x in items):
            nk = [I.norm(k) for k in keys]
            if all(is_scalar(k) for k in nk):
                try:
                    order = sorted(range(len(items)), key=lambda i: nk[i], reverse=I.truth(rev))
                    return I.new_list([items[i] for i in order])
                except TypeError:
                    I.raise_("TypeError", "'<' not supported")
            return isort(I, items, keys, rev)
    else:
        I.R.events.append(("sorted", items, None, rev, I.where()))
        if not any(isinstance(x, Rest) for x in items):
            return isort(I, items, items, rev)
    rests = [x for x in items if isinstance(x, Rest)]
    if len(rests) == 2 and len(items) == 3:
        lab = I.sym("sortlab", rests[0].label, kinds=["list"])
        return I.new_list([Rest(lab, 0), items[1], Rest(lab, 1)])
    raise Inconclusive("sorting a list of unknown shape")


def isort(I, items, keys, rev):
    """Stable insertion sort by `<` on the keys (each undecided comparison splits the path)."""
    r = I.truth(rev)
    out = []
    for it, k in zip(items, keys):
        pos = len(out)
        while pos > 0:
            pk = out[pos - 1][1]
            less = I.order_test(pk, k, "<") if r else I.order_test(k, pk, "<")
            if not less:
                break
            pos -= 1
        out.insert(pos, (it, k))
    return I.new_list([x for x, _ in out])


def b_reversed(I, a, kw):
    items = I.items_of(a[0])
    rs = [x for x in items if isinstance(x, Rest)]
    if not rs:
        return Iter(items[::-1], None, I.serial)
    if len(rs) == 2 and len(items) == 3:
        lab = I.sym("revlab", rs[0].label, kinds=["list"])
        return Iter([Rest(lab, 0), items[1], Rest(lab, 1)], None, I.serial)
    raise Inconclusive("reversed of unknown list")


def b_map(I, a, kw):
    cols = [I.items_of(x) for x in a[1:]]
    out = []
    if len(cols) == 1:
        for x in cols[0]:
            out.append(x if isinstance(x, Rest) else I.call(a[0], [x], {}))
        return Iter(out, None, I.serial)
    for t in I.items_of(b_zip(I, a[1:], {})):
        out.append(t if isinstance(t, Rest) else I.call(a[0], list(t), {}))
    return Iter(out, None, I.serial)


def b_filter(I, a, kw):
    out = []
    items = I.items_of(a[1])
    rests = any(isinstance(x, Rest) for x in items)
    lab = None
    for x in items:
        if isinstance(x, Rest):
            lab = lab or I.sym("filtered", x.label, 0, kinds=["list"])
            out.append(Rest(lab, x.side))
            continue
        t = I.truth(x) if a[0] is None else I.truth(I.call(a[0], [x], {}))
        if t:
            out.append(x)
    if rests and not any(not isinstance(x, Rest) for x in out) and any(not isinstance(x, Rest) for x in items):
        out = []
    return Iter(out, None, I.serial)


def _minmax(I, a, kw, name):
    items = I.items_of(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, Rest) for x in items):
        return I.havoc(name)
    if not items:
        if "default" in kw:
            return kw["default"]
        I.raise_("ValueError", f"{name}() arg is an empty sequence")
    key = kw.get("key")
    best = items[0]
    bk = I.call(key, [best], {}) if key else best
    for x in items[1:]:
        xk = I.call(key, [x], {}) if key else x
        if I.order_test(xk, bk, "<" if name == "min" else ">"):
            best, bk = x, xk
    return best


def b_min(I, a, kw):
    return _minmax(I, a, kw, "min")


def b_max(I, a, kw):
    return _minmax(I, a, kw, "max")


def b_sum(I, a, kw):
    acc = a[1] if len(a) > 1 else kw.get("start", 0)
    items = I.items_of(a[0])
    rests = [x for x in items if isinstance(x, Rest)]
    for x in items:
        if not isinstance(x, Rest):
            if isinstance(I.norm(x), bool):
                x = int(I.norm(x))
            elif isinstance(x, Sym) and I.kinds(x) <= frozenset(["bool"]):
                x = int(I.truth(x))
            acc = I.binop("Add", acc, x)
    if rests:
        I.R.soft.append("sum over other elements")
        return I.havoc("sum")
    return acc


def b_iter(I, a, kw):
    v = I.norm(a[0])
    if isinstance(v, Iter):
        return v
    items, exc = I.iterate(v)
    return Iter(items, exc, I.serial)


def b_next(I, a, kw):
    v = a[0]
    if isinstance(v, LazyGen) and v.cache is None:
        got = []

        def visit(x):
            if isinstance(x, Rest):
                got.append(x)
                return False
            got.append(x)
            return True
        I.gen_lazy(v, visit)
        vals = [x for x in got if not isinstance(x, Rest)]
        rest = [x for x in got if isinstance(x, Rest)]
        if vals:
            if rest:
                I.R.soft.append("first matching element of a list")
            return vals[0]
        if rest:
            I.R.soft.append("first matching element of a list")
            return I.havoc("next()")
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration", "")
    if isinstance(v, Iter):
        while v.pos < len(v.items):
            x = v.items[v.pos]
            v.pos += 1
            if isinstance(x, Rest):
                I.R.soft.append("first element of a list of unknown length")
                continue
            return x
        if v.exc is not None:
            raise v.exc
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration", "")
    return I.havoc("next()")


def b_callable(I, a, kw):
    v = I.norm(a[0])
    if isinstance(v, (Fn, BoundM, ACls, BMeth, PartialV, StubM, Ext, BType, Builtin)):
        return True
    if isinstance(v, AObj):
        return v.cls.lookup("__call__")[0] is not None
    if isinstance(v, Sym) and I.domain(v) is None:
        return I.truth(I.sym("callable", v, kinds=["bool"]))
    if isinstance(v, Stub):
        return v.call is not None
    return False


def b_property(I, a, kw):
    return PropV(a[0] if a else kw.get("fget"), a[1] if len(a) > 1 else kw.get("fset"))


def b_classmethod(I, a, kw):
    return ClassM(a[0])


def b_staticmethod(I, a, kw):
    return StaticM(a[0])


def b_super(I, a, kw):
    return SuperV(a[0], a[1])


def b_abs(I, a, kw):
    v = I.norm(a[0])
    return abs(v) if isinstance(v, (int, float)) else I.sym("abs", v, kinds=["int", "float"])


def b_round(I, a, kw):
    v = I.norm(a[0])
    if isinstance(v, (int, float)) and len(a) == 1:
        return round(v)
    return I.sym("round", v, kinds=["int", "float"])


def b_id(I, a, kw):
    return I.sym("id", a[0], kinds=["int"])


def b_hash(I, a, kw):
    v = I.norm(a[0])
    if isinstance(v, AObj):
        m, _ = v.cls.lookup("__hash__")
        if m is not None:
            return I.call(BoundM(m, v), [], {})
        if v.cls.lookup("__eq__")[0] is not None:
            I.raise_("TypeError", "unhashable type")
    return I.sym("hash", v, kinds=["int"])


def b_ord(I, a, kw):
    v = I.norm(a[0])
    return ord(v) if isinstance(v, str) and len(v) == 1 else I.sym("ord", v, kinds=["int"])


def b_chr(I, a, kw):
    v = I.norm(a[0])
    return chr(v) if isinstance(v, int) else I.sym("chr", v, kinds=["str"])


# ---------------------------------------------------------------------- methods
def call_method(I, o, name, args, kw):
    o = I.norm(o)
    if isinstance(o, AIss):
        return iss_method(I, o, name, args, kw)
    if isinstance(o, ACont):
        return cont_method(I, o, name, args, kw)
    if isinstance(o, PyConst):
        if isinstance(o.v, Rx):
            return regex_method(I, o, name, args, kw)
        return match_method(I, o.v, name, args, kw)
    if isinstance(o, str):
        return str_method(I, o, name, args, kw)
    if isinstance(o, Sym):
        if I.domain(o) is not None:
            return call_method(I, I.force(o), name, args, kw)
        return sym_method(I, o, name, args, kw)
    if isinstance(o, AList):
        return list_method(I, o, name, args, kw)
    if isinstance(o, tuple):
        return tuple_method(I, o, name, args, kw)
    if isinstance(o, ADict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, ASet):
        return set_method(I, o, name, args, kw)
    if isinstance(o, BType):
        return type_method(I, o, name, args, kw)
    if isinstance(o, SuperV):
        if name == "__setattr__":
            I.setattr(o.self_, args[0], args[1])
            return None
        if name == "__eq__":
            return I.is_(o.self_, args[0])
        return I.havoc(f"object.{name}")
    if isinstance(o, Iter):
        if name == "__next__":
            return b_next(I, [o], {})
        return I.havoc(f"iterator.{name}")
    if isinstance(o, bytes):
        if name == "decode":
            return o.decode(*args)
        return I.havoc("bytes method")
    if isinstance(o, (int, float)) and not kw:
        if name == "is_integer":
            return float(o).is_integer()
        return I.havoc("number method")
    return I.havoc(f"method {name} of {short(o)}")


def type_method(I, t, name, args, kw):
    n = t.name
    if n == "dict" and name == "fromkeys":
        d = ADict(I.serial)
        for x in I.items_of(args[0]):
            if isinstance(x, Rest):
                d.open = x.label if isinstance(x.label, Sym) else I.sym("rest", x.label, kinds=["dict"])
            else:
                d.items[I.hk(x)] = (x, args[1] if len(args) > 1 else None)
        return d
    if n == "str" and name == "join":
        return I.call(I.getattr(args[0], "join"), args[1:], {})
    if n == "datetime":
        return call_ext(I, "datetime.datetime." + name, args, kw)
    if n == "float" and name == "is_integer":
        return I.call(I.getattr(args[0], "is_integer"), args[1:], {})
    if n == "object" and name in ("__setattr__",):
        I.setattr(args[0], I.norm(args[1]), args[2])
        return None
    if args:
        return I.call(I.getattr(args[0], name), list(args[1:]), kw)
    return I.havoc(f"{n}.{name}")


PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize", "swapcase",
            "removeprefix", "removesuffix", "zfill", "replace", "expandtabs", "center", "ljust", "rjust"}
BOOL_STR = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "islower", "isupper",
            "isidentifier", "isnumeric", "isdecimal", "isascii", "istitle", "isprintable"}


def str_method(I, o, name, args, kw):
    a = [I.force(x) for x in args]
    if name == "join":
        items = I.items_of(a[0])
        parts = []
        for x in items:
            x = I.norm(x)
            if isinstance(x, Sym):
                if not I.split_kind(x, ["str"], f"{short(x)} is a string"):
                    I.raise_("TypeError", "sequence item: expected str instance")
            elif not isinstance(x, (str, Rest)):
                I.raise_("TypeError", "sequence item: expected str instance")
            parts.append(x)
        if all(isinstance(x, str) for x in parts):
            return o.join(parts)
        return I.sym("join", o, *parts, kinds=["str"])
    if name == "format":
        for x in list(a) + list(kw.values()):
            pass
        if all(is_scalar(x) for x in a) and all(is_scalar(I.norm(x)) for x in kw.values()):
            try:
                return o.format(*a, **{k: I.norm(v) for k, v in kw.items()})
            except (KeyError, IndexError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
        # which fields the template needs is known; a missing one raises
        import string
        auto = 0
        for _, fld, _, _ in string.Formatter().parse(o):
            if fld is None:
                continue
            root = _re.split(r"[.\[]", fld)[0]
            if root == "":
                if auto >= len(a):
                    I.raise_("IndexError", "format")
                auto += 1
            elif root.isdigit():
                if int(root) >= len(a):
                    I.raise_("IndexError", "format")
            elif root not in kw:
                I.raise_("KeyError", root)
        return I.sym("format", o, *a, *[x for kv in sorted(kw.items(), key=lambda t: t[0]) for x in kv], kinds=["str"])
    if name in ("encode",):
        return encode(I, o, a[0] if a else "utf-8")
    if all(is_scalar(x) or isinstance(x, tuple) for x in a) and not kw:
        try:
            r = getattr(o, name)(*a)
        except (ValueError, IndexError, TypeError) as e:
            I.raise_(type(e).__name__, str(e))
        if isinstance(r, list):
            return I.new_list(r)
        if is_scalar(r) or isinstance(r, tuple):
            return r
        return I.havoc("str method")
    if name in ("split", "rsplit") and all(is_scalar(x) for x in kw.values()):
        return I.new_list(getattr(o, name)(*a, **kw))
    if name in PURE_STR:
        return I.sym(name, o, *a, kinds=["str"])
    if name in BOOL_STR:
        for x in a:
            if isinstance(x, Sym) and not I.split_kind(x, ["str", "other"], f"{short(x)} is a string"):
                I.raise_("TypeError", f"{name} arg must be str")
            elif not isinstance(x, (Sym, str, tuple)):
                I.raise_("TypeError", f"{name} arg must be str")
        return I.truth(I.sym(name, o, *a, kinds=["bool"]))
    if name == "__contains__":
        return I.contains(o, a[0])
    return I.havoc(f"str.{name}")


BYTES = {"encoded", "b64d", "b64e", *("bytes." + n for n in PURE_STR)}


def sym_method(I, s, name, args, kw):
    ks = I.kinds(s)
    # narrow to the kinds which have the method (done by sym_getattr); now dispatch
    if ks <= frozenset(["list"]):
        return list_method(I, I.materialise(s), name, args, kw)
    if ks <= frozenset(["dict"]):
        return symdict_method(I, s, name, args, kw)
    if ks <= frozenset(["cont"]):
        return cont_method(I, I.as_cont(s), name, args, kw)
    if ks <= frozenset(["str"]):
        return symstr_method(I, s, name, args, kw)
    if ks <= frozenset(["datetime"]):
        if name == "isoformat":
            a = [I.norm(x) for x in args] + [x for k in sorted(kw) for x in (k, I.norm(kw[k]))]
            return I.sym("isoformat", s, *([] if a in ([], ["T"], ["sep", "T"]) else a), kinds=["str"])
        extra = [x for k in sorted(kw) for x in (k, I.norm(kw[k]))]
        dk = {"replace": ["datetime"], "astimezone": ["datetime"], "timestamp": ["float"], "strftime": ["str"], "utcoffset": ["none", "other"], "tzname": ["none", "str"]}.get(name)
        return I.sym("dt." + name, s, *[I.norm(a) for a in args], *extra, **({"kinds": dk} if dk else {}))
    if ks <= frozenset(["float", "int", "bool"]):
        if name == "is_integer":
            if I.kinds(s) <= frozenset(["float"]) or I.split_kind(s, ["float"], f"{short(s)} is a float"):
                return fclass(I, s) == "integral"
            return True
        return I.sym("num." + name, s)
    # mixed: split
    for k in ("cont", "list", "dict", "str", "datetime"):
        if k in ks:
            if I.split_kind(s, [k], f"{short(s)} is {k}"):
                return sym_method(I, s, name, args, kw)
            ks = I.kinds(s)
    if s.op in BYTES and name in PURE_STR:
        return I.sym("bytes." + name, s, *[I.norm(x) for x in args], kinds=["other"])
    if s.op in BYTES and name == "decode":
        if s.op == "encoded":
            return s.args[0]
        return I.sym("decoded", s, kinds=["str"])
    if ks == frozenset(["other"]):
        return I.havoc(f"method {name} of {short(s)}")
    if ks <= NUM:
        return sym_method(I, s, name, args, kw)
    return I.havoc(f"method {name} of {short(s)}")


def symstr_method(I, s, name, args, kw):
    a = [I.force(x) for x in args]
    if name in PURE_STR:
        if name in ("lower", "casefold", "upper") and s.op in ("lower", "casefold", "upper") and name == s.op:
            return s
        r = I.sym(name, s, *a, kinds=["str"])
        if name in ("lower", "upper", "casefold", "capitalize", "swapcase", "title"):
            if s in I.R.truth and r not in I.R.truth:
                I.R.truth[r] = I.R.truth[s]
        return r
    if name in BOOL_STR:
        for x in a:
            if isinstance(x, Sym) and not I.split_kind(x, ["str", "other"], f"{short(x)} is a string"):
                I.raise_("TypeError", f"{name} first arg must be str")
            elif not isinstance(x, (str, tuple, Sym)):
                I.raise_("TypeError", f"{name} first arg must be str")
        return I.truth(I.sym(name, s, *a, kinds=["bool"]))
    if name in ("split", "rsplit", "splitlines"):
        return I.sym("split", s, name, *a, *[I.norm(x) for x in kw.values()], kinds=["list"], ek=frozenset(["str"]))
    if name in ("partition", "rpartition"):
        return tuple(I.sym(name, s, a[0], i, kinds=["str"]) for i in range(3))
    if name == "encode":
        return encode(I, s, a[0] if a else "utf-8")
    if name in ("find", "rfind", "count", "index", "rindex"):
        if name in ("index", "rindex"):
            if not I.contains(s, a[0]):
                I.raise_("ValueError", "substring not found")
        return I.sym(name, s, *a, kinds=["int"])
    if name == "join":
        items = I.items_of(a[0])
        return I.sym("join", s, *items, kinds=["str"])
    if name == "format":
        return I.sym("format", s, *a, kinds=["str"])
    if name == "__contains__":
        return I.contains(s, a[0])
    return I.havoc(f"str.{name}")


def symdict_method(I, s, name, args, kw):
    R = I.R
    if s in R.mat and isinstance(R.mat[s], ADict):
        return dict_method(I, R.mat[s], name, args, kw)
    d = ADict(I.serial, open_=s)
    if name in ("get", "keys", "values", "items", "copy", "__contains__", "__getitem__"):
        return dict_method(I, d, name, args, kw)
    R.mat[s] = d
    I.R.effects.append((s, I.where()))
    return dict_method(I, d, name, args, kw)


def list_method(I, l, name, args, kw):
    if name == "append":
        I.touch(l)
        l.items.append(args[0])
        I.note_append(l)
        return None
    if name == "extend":
        items = I.items_of(args[0])
        I.touch(l)
        l.items.extend(items)
        return None
    if name == "insert":
        k = I.norm(args[0])
        I.touch(l)
        if isinstance(k, int) and (not any(isinstance(x, Rest) for x in l.items) or k == 0):
            l.items.insert(k, args[1])
            return None
        raise Inconclusive("insert into list of unknown shape")
    if name == "copy":
        return I.new_list(l.items)
    if name == "clear":
        I.touch(l)
        l.items[:] = []
        return None
    if name == "pop":
        k = I.norm(args[0]) if args else -1
        if any(isinstance(x, Rest) for x in l.items) or not isinstance(k, int):
            raise Inconclusive("pop from list of unknown shape")
        I.touch(l)
        try:
            return l.items.pop(k)
        except IndexError:
            I.raise_("IndexError", "pop index out of range")
    if name == "remove":
        if any(isinstance(x, Rest) for x in l.items):
            raise Inconclusive("remove from list of unknown shape")
        for i, x in enumerate(list(l.items)):
            if I.is_same(x, args[0]) or I.eq(x, args[0]):
                I.touch(l)
                del l.items[i]
                return None
        I.raise_("ValueError", "list.remove(x): x not in list")
    if name == "index":
        for i, x in enumerate(l.items):
            if isinstance(x, Rest):
                raise Inconclusive("index in list of unknown shape")
            if I.eq(x, args[0]):
                return i
        I.raise_("ValueError", "not in list")
    if name == "count":
        n = 0
        for x in l.items:
            if isinstance(x, Rest):
                raise Inconclusive("count in list of unknown shape")
            n += bool(I.eq(x, args[0]))
        return n
    if name == "reverse":
        I.touch(l)
        r = b_reversed(I, [l], {})
        l.items[:] = r.items
        return None
    if name == "sort":
        I.touch(l)
        r = b_sorted(I, [l], kw)
        l.items[:] = r.items
        return None
    if name == "__contains__":
        return I.contains(l, args[0])
    if name == "__len__":
        return I.length(l)
    if name == "__getitem__":
        return I.getitem(l, args[0])
    if name == "__iter__":
        return Iter(l.items, None, I.serial)
    return I.havoc(f"list.{name}")


def tuple_method(I, t, name, args, kw):
    if name == "index":
        for i, x in enumerate(t):
            if I.eq(x, args[0]):
                return i
        I.raise_("ValueError", "not in tuple")
    if name == "count":
        return sum(bool(I.eq(x, args[0])) for x in t)
    if name == "__contains__":
        return I.contains(t, args[0])
    return I.havoc(f"tuple.{name}")


def dict_view(I, d, what):
    out = []
    for k, v in d.items.values():
        out.append({"keys": k, "values": v, "items": (k, v)}[what])
    if d.open is not None:
        s = d.open
        R = I.R
        c = R.truth.get(s)
        if c is None:
            if d.items:
                c = I.choose(f"{short(s)} has other entries", [True, False], (s,))
                R.truth[s] = c
            else:
                c = I.sym_truth(s)
        if c:
            k = I.sym("anykey", s, kinds=["str"])
            v = I.sym("dget", s, k, kinds=KINDS_JSON)
            if isinstance(s.note, dict) and "value" in s.note:
                v = s.note["value"](I, k) or v
            # the arbitrary other key differs from the listed ones
            out.append(Rest(s, 0))
            out.append({"keys": k, "values": v, "items": (k, v)}[what])
            out.append(Rest(s, 1))
    return out


def dict_method(I, d, name, args, kw):
    if name == "get":
        return I.dict_get(d, args[0], args[1] if len(args) > 1 else kw.get("default"))
    if name in ("items", "keys", "values"):
        return Iter(dict_view(I, d, name), None, I.serial) if name != "keys" else I.new_list(dict_view(I, d, name))
    if name == "copy":
        return shallow(I, d)
    if name == "update":
        I.touch(d)
        for v in args:
            v = I.norm(v)
            if isinstance(v, ADict):
                for h, kv in v.items.items():
                    d.items[h] = kv
                if v.open is not None:
                    d.open = v.open
            elif isinstance(v, Sym):
                if not I.split_kind(v, ["dict"], f"{short(v)} is a dict"):
                    I.raise_("TypeError", "not a mapping")
                if d.open is None:
                    d.open = v
                else:
                    raise Inconclusive("merge of two unknown dicts")
            else:
                for x in I.items_of(v):
                    if isinstance(x, Rest):
                        raise Inconclusive("update from unknown list")
                    p = I.items_of(x)
                    I.dict_set(d, p[0], p[1])
        for k, v in kw.items():
            I.dict_set(d, k, v)
        return None
    if name == "setdefault":
        f, v = I.dict_find(d, args[0])
        if f:
            return v
        nv = args[1] if len(args) > 1 else None
        I.dict_set(d, args[0], nv)
        return nv
    if name == "pop":
        f, v = I.dict_find(d, args[0])
        if not f:
            if len(args) > 1:
                return args[1]
            I.raise_("KeyError", args[0])
        I.touch(d)
        h = I.hk(I.norm(args[0]))
        if h not in d.items:
            for hh, (kk, _) in list(d.items.items()):
                if I.eq(kk, args[0]):
                    h = hh
        d.items.pop(h, None)
        if d.open is not None:
            I.R.isx[("deleted", d, h)] = True
        return v
    if name == "clear":
        I.touch(d)
        d.items.clear()
        d.open = None
        return None
    if name == "__contains__":
        return bool(I.dict_find(d, args[0])[0])
    if name == "__getitem__":
        return I.getitem(d, args[0])
    if name == "__setitem__":
        return I.setitem(d, args[0], args[1])
    if name == "popitem":
        raise Inconclusive("popitem")
    if name == "fromkeys":
        return type_method(I, BT["dict"], name, args, kw)
    return I.havoc(f"dict.{name}")


def set_method(I, s, name, args, kw):
    if name == "add":
        I.touch(s)
        s.items[I.hk(args[0])] = args[0]
        return None
    if name == "update":
        I.touch(s)
        for a in args:
            for x in I.items_of(a):
                if isinstance(x, Rest):
                    s.rest = I.new_list([x])
                else:
                    s.items[I.hk(x)] = x
        return None
    if name == "union":
        r = ASet(I.serial, s.items, s.rest)
        set_method(I, r, "update", args, {})
        return r
    if name == "copy":
        return ASet(I.serial, s.items, s.rest)
    if name in ("remove", "discard"):
        h = I.hk(args[0])
        I.touch(s)
        if h in s.items:
            del s.items[h]
            return None
        for hh, x in list(s.items.items()):
            if I.eq(x, args[0]):
                del s.items[hh]
                return None
        if name == "remove":
            I.raise_("KeyError", args[0])
        return None
    if name in ("difference", "intersection"):
        other = args[0]
        keep = {}
        for h, x in s.items.items():
            if I.contains(other if not isinstance(I.norm(other), Iter) else I.new_list(I.items_of(other)), x) == (name == "intersection"):
                keep[h] = x
        return ASet(I.serial, keep, s.rest)
    if name == "issubset":
        for x in s.items.values():
            if not I.contains(args[0], x):
                return False
        if s.rest is not None:
            I.R.soft.append("subset of unknown set")
        return True
    if name == "issuperset":
        for x in I.items_of(args[0]):
            if not isinstance(x, Rest) and not I.contains(s, x):
                return False
        return True
    if name == "isdisjoint":
        for x in s.items.values():
            if I.contains(args[0], x):
                return False
        return True
    if name == "clear":
        I.touch(s)
        s.items.clear()
        return None
    if name == "pop":
        if len(s.items) == 1 and s.rest is None:
            I.touch(s)
            return s.items.pop(next(iter(s.items)))
        raise Inconclusive("set.pop")
    if name == "__contains__":
        return I.contains(s, args[0])
    return I.havoc(f"set.{name}")


def _arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def iss_method(I, o, name, args, kw):
    if name == "add":
        I.iss_add(o, _arg(args, kw, 0, "issue"), _arg(args, kw, 1, "proceed"), _arg(args, kw, 2, "location"))
        return None
    if name == "merge":
        I.iss_merge(o, _arg(args, kw, 0, "issues"), _arg(args, kw, 1, "location"))
        return None
    if name == "get":
        return I.iss_get(o, _arg(args, kw, 0, "location"))
    if name == "pop":
        return I.iss_pop(o, _arg(args, kw, 0, "location"), _arg(args, kw, 1, "code"))
    if name == "can_proceed":
        return I.iss_can_proceed(o, args)
    if name == "has_issues":
        return I.iss_has(o, args)
    if name == "to_dict":
        if not I.iss_has(o):
            return I.new_dict()
        s = I.sym("issdict", o, kinds=["dict"])
        I.R.truth[s] = True
        return s
    return I.havoc(f"ValidationIssues.{name}")


def cont_method(I, o, name, args, kw):
    if name == "__getitem__":
        return I.cont_get(o, args[0])
    if name == "__setitem__":
        return I.cont_set(o, args[0], args[1])
    if name == "__delitem__":
        return I.cont_del(o, args[0])
    if name == "to_dict":
        s = I.sym("todict", o, len(o.sets), kinds=["dict"])
        I.R.contdict = getattr(I.R, "contdict", {})
        I.R.contdict[s] = (o, dict(o.sets))
        if o.base is None:
            d = ADict(I.serial)
            for (_, k), v in o.sets.items():
                if I.kind(v) == "missing":
                    continue
                d.items[I.hk(k)] = (k, cont_plain(I, v))
            return d
        d = ADict(I.serial, open_=I.sym("todict", o.base, kinds=["dict"]))
        for (_, k), v in o.sets.items():
            d.items[I.hk(k)] = (k, cont_plain(I, v))
        return d
    if name == "__eq__":
        return I.eq(o, args[0])
    return I.havoc(f"container.{name}")


def cont_plain(I, v):
    v = I.norm(v)
    if isinstance(v, ACont):
        return cont_method(I, v, "to_dict", [], {})
    if isinstance(v, AList):
        return I.new_list([x if isinstance(x, Rest) else cont_plain(I, x) for x in v.items])
    return v
