"""Abstract values of the analysis.

Known Python scalars (None, bool, int, float, str, bytes) and tuples stand for
themselves; everything else is one of the classes below.  A `Sym` stands for an
arbitrary, unknown value: it is identified by how it was obtained (value numbering)
and restricted by a set of possible *kinds* and by the facts of the current path.
"""

KINDS_JSON = frozenset(["none", "bool", "int", "float", "str", "list", "dict"])
KINDS_ITEM = frozenset(["none", "bool", "int", "float", "str", "list", "cont"])
KINDS_ALL = frozenset(
    ["none", "bool", "int", "float", "str", "list", "dict", "cont", "invalid", "missing",
     "datetime", "other"]
)
NUM = frozenset(["bool", "int", "float"])


class Sym:
    """An unknown value."""
    __slots__ = ("op", "args", "kinds", "ek", "dom", "hv", "_h", "note", "_r")

    def __init__(self, op, args, kinds, ek=None, dom=None, hv=False, note=None):
        self.op, self.args, self.kinds, self.ek, self.dom = op, args, kinds, ek, dom
        self.hv = hv
        self.note = note
        self._h = id(self)
        self._r = None

    def __repr__(self):
        if self._r is None:
            r = f"<{self.op} {' '.join(map(short, self.args))}>" if self.args else f"<{self.op}>"
            self._r = r if len(r) < 200 else r[:197] + "..."
        return self._r


def short(v):
    r = repr(v)
    return r if len(r) < 80 else r[:77] + "..."


class Heap:
    __slots__ = ("born",)


class AObj(Heap):
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, born):
        self.cls, self.attrs, self.born, self.tag = cls, {}, born, None

    def __repr__(self):
        if "$name" in self.attrs:
            return f"{self.cls.name}.{self.attrs['$name']}"
        if self.tag:
            return f"{self.cls.name}({self.tag})"
        return f"<{self.cls.name} object>"


class Rest:
    """The (unknown number of) other elements of a list, before or after the focused one."""
    __slots__ = ("label", "side")

    def __init__(self, label, side):
        self.label, self.side = label, side

    def __repr__(self):
        return f"*{short(self.label)}{'<' if self.side == 0 else '>'}"

    def __eq__(self, o):
        return isinstance(o, Rest) and o.label is self.label and o.side == self.side

    def __hash__(self):
        return hash((id(self.label), self.side))


class AList(Heap):
    __slots__ = ("items", "lz")

    def __init__(self, items, born):
        self.items, self.born, self.lz = list(items), born, None

    def __repr__(self):
        return "[" + ", ".join(map(short, self.items)) + "]"


class ADict(Heap):
    """items: hashkey -> (key, value); open: None or Sym standing for the unknown remainder."""
    __slots__ = ("items", "open", "default")

    def __init__(self, born, open_=None, default=None):
        self.items, self.open, self.born, self.default = {}, open_, born, default

    def __repr__(self):
        return "{" + ", ".join(f"{short(k)}: {short(v)}" for k, v in self.items.values()) + (
            ", ..." if self.open is not None else "") + "}"


class ASet(Heap):
    __slots__ = ("items", "rest", "frozen")

    def __init__(self, born, items=None, rest=None):
        self.items, self.rest, self.born = dict(items or {}), rest, born
        self.frozen = False

    def __repr__(self):
        return "{" + ", ".join(short(v) for v in self.items.values()) + "}"


class AIss(Heap):
    """Native ValidationIssues: entries are E(...) (definite) or Tok(...) (any issues below a prefix)."""
    __slots__ = ("entries", "tag")

    def __init__(self, born):
        self.entries, self.born, self.tag = [], born, None

    def __repr__(self):
        return f"Issues{self.entries}"


class E:
    __slots__ = ("loc", "code", "stop", "err")

    def __init__(self, loc, code, stop, err=None):
        self.loc, self.code, self.stop, self.err = loc, code, stop, err

    def __repr__(self):
        return f"{self.code}@{'/'.join(str(x) for x in self.loc)}{'!' if self.stop else ''}"


class Tok:
    """A set of issues about which nothing is known except through facts on (tok, relative location)."""
    __slots__ = ("tok", "loc")

    def __init__(self, tok, loc):
        self.tok, self.loc = tok, loc

    def __repr__(self):
        return f"{self.tok}@{'/'.join(str(x) for x in self.loc)}"


class ACont(Heap):
    """Native SCIMDataContainer: base (None: empty, or Sym) overlaid with writes."""
    __slots__ = ("base", "sets", "tag")

    def __init__(self, born, base=None):
        self.base, self.sets, self.born, self.tag = base, {}, born, None

    def __repr__(self):
        return f"Cont({self.base}|{ {k: short(v) for k, v in self.sets.items()} })"


class ACls(Heap):
    __slots__ = ("name", "qual", "bases", "ns", "mro", "kind", "node", "fields", "ext_bases")

    def __init__(self, name, qual, bases, ns, born):
        self.name, self.qual, self.bases, self.ns, self.born = name, qual, bases, ns, born
        self.kind = None
        self.node = None
        self.fields = None
        self.ext_bases = []
        self.mro = linearise(self)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


def linearise(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s and s[0] is c:
                del s[0]
            elif c in s:
                s.remove(c)


class AMod(Heap):
    __slots__ = ("name", "path", "vars", "tree", "state")

    def __init__(self, name, path, tree):
        self.name, self.path, self.tree, self.vars, self.state, self.born = (
            name, path, tree, {}, 0, 0)

    def __repr__(self):
        return f"<module {self.name}>"


class Env:
    __slots__ = ("vars", "parent", "mod", "frame", "globals_", "nonlocals", "is_class", "is_comp")

    def __init__(self, parent, mod, frame=None, is_class=False, is_comp=False):
        self.vars, self.parent, self.mod, self.frame = {}, parent, mod, frame
        self.globals_ = self.nonlocals = ()
        self.is_class = is_class
        self.is_comp = is_comp


class Fn:
    __slots__ = ("name", "qual", "node", "env", "mod", "owner", "defaults", "kwdefaults", "isgen",
                 "attrs", "memo", "born", "field")

    def __init__(self, name, qual, node, env, mod, owner):
        self.name, self.qual, self.node, self.env, self.mod, self.owner = (
            name, qual, node, env, mod, owner)
        self.defaults, self.kwdefaults, self.isgen = [], {}, False
        self.attrs = {}
        self.memo = None
        self.born = 0
        self.field = None       # attribute name if the function only returns an attribute of its first argument, False if not

    def __repr__(self):
        return f"<function {self.qual}>"


class Frame:
    __slots__ = ("fn", "self_", "yields", "node")

    def __init__(self, fn, self_):
        self.fn, self.self_, self.yields, self.node = fn, self_, None, None


class BoundM:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn.qual}>"


class BMeth:
    """Bound method of a native value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PropV:
    __slots__ = ("get", "set")

    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class ClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class StaticM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SuperV:
    __slots__ = ("owner", "self_")

    def __init__(self, owner, self_):
        self.owner, self.self_ = owner, self_


class PartialV:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Ext:
    """A name from outside the analysed package."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))


class BType:
    """A builtin type."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<type {self.name}>"


class TypeOf:
    __slots__ = ("sym",)

    def __init__(self, sym):
        self.sym = sym

    def __repr__(self):
        return f"<type of {self.sym}>"

    def __eq__(self, o):
        return isinstance(o, TypeOf) and o.sym is self.sym

    def __hash__(self):
        return hash(("typeof", id(self.sym)))


class Builtin:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<builtin {self.name}>"


class PyConst:
    """An opaque Python constant produced by constant folding of a pure library call (regex, match)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"<const {self.v!r}>"


class LazyGen:
    """A generator expression, not yet consumed."""
    __slots__ = ("node", "env", "first", "cache", "pos")

    def __init__(self, node, env, first):
        self.node, self.env, self.first, self.cache, self.pos = node, env, first, None, 0


class Iter(Heap):
    """An iterator over a list of values/Rest."""
    __slots__ = ("items", "pos", "exc")

    def __init__(self, items, exc=None, born=0):
        self.items, self.pos, self.exc = list(items), 0, exc
        self.born = born


class Stub:
    """An object known only through the contract in `get` (name -> value or callable)."""
    __slots__ = ("name", "get", "call", "iter", "getitem", "truth", "kinds", "isinst", "eq", "data")

    def __init__(self, name, get=None, call=None, iter=None, getitem=None, truth=True, isinst=None,
                 eq=None, data=None):
        self.name, self.get, self.call, self.iter, self.getitem = name, get or {}, call, iter, getitem
        self.truth, self.isinst = truth, isinst or (lambda cls: None)
        self.eq = eq
        self.data = data

    def __repr__(self):
        return f"<{self.name}>"


class StubM:
    """A Python-level callable used as contract method."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="contract"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"<contract {self.name}>"


# ---- control flow of the analysis

class AbsRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc, self.where = exc, where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Inconclusive(Exception):
    """The analysis met something it has no transfer function for."""


class OutOfRange(Exception):
    """No such option of the first split."""


class Infeasible(Exception):
    """The current path contradicts the assumptions."""
