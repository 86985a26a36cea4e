"""Framework for the property checks: obligations, path accounting, reporting."""
import hashlib
import json
import os
import time
import traceback

from pyai.core import Interp
from pyai.values import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class SpecFail(Exception):
    def __init__(self, msg, where=None):
        self.msg, self.where = msg, where


class Skip(Exception):
    """The path is outside the case's precondition."""


class Anchor(Exception):
    """A public name the property is stated about does not exist any more."""


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.interps = {}
        self.units = 0
        self.board = None
        self.names = {}
        self.cases = 0
        self.paths = 0
        self.decided = 0
        self.undecided = 0
        self.vacuous = []
        self.violations = []
        self.undecided_why = {}
        self.rules = []
        self.functions = set()
        self.modules = set()
        self.samples = []
        self.extra = {}
        self.t0 = time.time()
        self.start = time.monotonic()
        self.only = os.environ.get("VERIF_CASE")

    # -------------------------------------------------------------- engines
    def interp(self, native_issues=True, native_cont=True, key=""):
        k = (native_issues, native_cont, key)
        if k not in self.interps:
            I = Interp(REPO)
            I.native_issues, I.native_cont = native_issues, native_cont
            self.interps[k] = I
        I = self.interps[k]
        I.overrides, I.cls_overrides, I.tok_rule = {}, {}, None
        return I

    def get(self, I, dotted):
        try:
            return I.lookup(dotted)
        except KeyError:
            raise Anchor(dotted)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def setup(self, I, fn):
        """Build objects shared by the paths of the following cases (changes made to them on a path are undone)."""
        I.serial = 0
        I.R = type(I.R)([])
        return fn(I)

    # -------------------------------------------------------------- obligations
    def claimer(self):
        """Distribution of the work over processes: options of a case's first split are claimed one at a time."""
        k = self.units
        self.units += 1
        if self.board is None:
            return None
        if k >= len(self.board):
            raise RuntimeError("too many cases")

        def claim():
            with self.board.get_lock():
                j = self.board[k]
                self.board[k] = j + 1
            return j
        return claim

    def case(self, I, name, fn, max_paths=4000, shapes=None, raises=()):
        """Analyse every path of `fn`; `fn` drives the interpreter and states expectations with
        `expect`.  raises: exception names the specification allows."""
        if self.only and self.only not in name:
            return
        decided = 0
        seen = set()
        npaths = 0
        claim = self.claimer()

        def thunk():
            try:
                return ("ok", fn(I))
            except Skip:
                return ("skip", None)
            except SpecFail as e:
                return ("fail", e)

        budget = 700 if self.tier == "quick" else 3000
        I.deadline = min(time.monotonic() + budget, self.start + budget)
        for R, out, val in I.explore(thunk, max_paths=max_paths, shapes=shapes, claim=claim):
            npaths += 1
            self.paths += 1
            if out == "inconclusive":
                self._undecided(name, val)
                continue
            if out == "ok" and val[0] == "skip":
                continue
            if R.soft:
                self._undecided(name, R.soft[0])
                continue
            if out == "raise":
                n = I.exc_name(val)
                if n in raises:
                    decided += 1
                    continue
                e = SpecFail(f"raises {n}: {self._excmsg(I, val)}", val.where)
            elif val[0] == "fail":
                e = val[1]
            else:
                decided += 1
                if len(self.samples) < 8 and npaths == 1:
                    self.samples.append({"case": name, "functions": sorted(R.funcs)[:6],
                                         "splits": I.trace(R, 6)})
                continue
            decided += 1
            key = (e.msg,)
            if key not in seen:
                seen.add(key)
                self.violations.append({
                    "property": self.prop, "case": name, "what": e.msg,
                    "at": e.where or self._last_site(R), "path": I.trace(R, 25),
                    "functions": sorted(R.funcs)})
        self.decided += decided
        self.names[name] = self.names.get(name, 0) + decided
        self.functions |= I.analysed_functions
        self.modules |= I.analysed_modules

    def _excmsg(self, I, e):
        try:
            a = e.exc.attrs.get("args")
            return str(a)[:120]
        except Exception:
            return ""

    def _last_site(self, R):
        t = [at for (_, _, _, _, at) in R.taken if at != "spec" and "ref:" not in at]
        if t:
            return t[-1]
        w = [e[4] for e in R.events if e[0] == "issue" and len(e) > 4 and e[4]]
        if w:
            return str(w[-1])
        return "; ".join(sorted(R.funcs)[:4]) or None

    def _undecided(self, name, why):
        self.undecided += 1
        k = str(why)[:140]
        self.undecided_why.setdefault(k, {"paths": 0, "case": name})["paths"] += 1

    def fail(self, case, what, at=None):
        """Record a violation found without path exploration."""
        self.violations.append({"property": self.prop, "case": case, "what": what, "at": at,
                                "path": [], "functions": []})

    FIELDS = ("paths", "decided", "undecided", "violations", "undecided_why", "rules", "functions", "modules", "samples", "extra",
              "names", "steps")

    @property
    def steps(self):
        return sum(i.total_steps for i in self.interps.values())

    def result(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def absorb(self, rs):
        """Combine the results of the worker processes."""
        self.nsteps = 0
        for r in rs:
            self.paths += r["paths"]
            self.decided += r["decided"]
            self.undecided += r["undecided"]
            self.nsteps += r["steps"]
            for k, v in r["undecided_why"].items():
                self.undecided_why.setdefault(k, {"paths": 0, "case": v["case"]})["paths"] += v["paths"]
            for x in r["rules"]:
                self.rule(x)
            self.functions |= r["functions"]
            self.modules |= r["modules"]
            self.samples = (self.samples + r["samples"])[:8]
            self.extra.update(r["extra"])
            for k, v in r["names"].items():
                self.names[k] = self.names.get(k, 0) + v
            for v in r["violations"]:
                if not any((o["case"], o["what"]) == (v["case"], v["what"]) for o in self.violations):
                    self.violations.append(v)
        order = {n: i for i, n in enumerate(self.names)}
        self.violations.sort(key=lambda v: (order.get(v["case"], 0), v["what"]))
        self.cases = len(self.names)
        self.vacuous = [n for n, d in self.names.items() if not d]

    def fact(self, case, ok, what, at=None):
        """A structural obligation on the evaluated program."""
        if self.only and self.only not in case:
            return
        claim = self.claimer()
        if claim is not None and claim() != 0:
            return
        self.names[case] = 1
        self.paths += 1
        self.decided += 1
        if not ok:
            self.fail(case, what, at)


def expect(cond, msg, where=None):
    if not cond:
        raise SpecFail(msg, where)


# ------------------------------------------------------------------ helpers for specs
def meth(I, obj, name, *args, **kw):
    return I.call(I.getattr(obj, name), list(args), kw)


def new(I, cls, *args, **kw):
    if isinstance(cls, str):
        try:
            cls = I.lookup(cls)
        except KeyError:
            raise Anchor(cls)
    return I.call(cls, list(args), kw)


def enum(I, dotted):
    """Enum class -> {member name: value}"""
    c = I.lookup(dotted)
    out = {}
    for k, v in c.ns.items():
        if isinstance(v, AObj) and v.cls is c:
            out[k] = v
    return out


def pick(I, what, opts):
    """Case split made by the specification."""
    return I.choose(what, list(opts))


def opaque(I, name, kinds=("other",), **kw):
    return I.sym("opaque", name, kinds=kinds, **kw)


def jd(I, d):
    """Python literal (possibly holding abstract values) -> abstract dict/list."""
    if isinstance(d, dict):
        return I.new_dict([(k, jd(I, v)) for k, v in d.items()])
    if isinstance(d, list):
        return I.new_list([jd(I, x) for x in d])
    return d


def same(I, a, b):
    """a and b are the same abstract value (identity of objects, equality of constants)."""
    a, b = I.norm(a), I.norm(b)
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
        return type(a) is type(b) and a == b
    return False


def entries(I, iss):
    """Definite entries of a native issues object as [(loc, code, stop)], tokens as [(tok, loc)]."""
    iss = I.norm(iss)
    if not isinstance(iss, AIss):
        raise SpecFail(f"expected an issues object, got {iss!r}")
    es = [(tuple(I.norm(x) for x in e.loc), e.code, e.stop) for e in iss.entries if isinstance(e, E)]
    ts = [(e.tok, tuple(I.norm(x) for x in e.loc)) for e in iss.entries if isinstance(e, Tok)]
    return es, ts


def token_issues(I, tok, loc=()):
    a = AIss(I.serial)
    a.entries.append(Tok(tok, loc))
    return a


def issues_of(I, *es):
    a = AIss(I.serial)
    for loc, code, stop in es:
        a.entries.append(E(tuple(loc), code, stop, Stub("issue", get={"code": lambda i, c=code: c})))
    return a


def pair(I, v):
    v = I.norm(v)
    if isinstance(v, tuple) and len(v) == 2:
        return I.norm(v[0]), I.norm(v[1])
    if isinstance(v, AList) and len(v.items) == 2:
        return I.norm(v.items[0]), I.norm(v.items[1])
    raise SpecFail(f"expected a pair, got {v!r}")


def ref(I, src, name):
    """A function of reference Python, interpreted by the same engine (oracle)."""
    import ast
    key = "ref:" + hashlib.sha1(src.encode()).hexdigest()[:8]
    if key not in I.mods:
        m = AMod(key, key, ast.parse(src))
        I.mods[key] = m
        m.state = 1
        saved, fr = I.serial, I.R.frames
        I.serial, I.R.frames = 0, []
        env = Env(None, m)
        env.vars = m.vars
        m.vars["__name__"] = key
        try:
            I.exec_block(m.tree.body, env)
        finally:
            I.serial, I.R.frames = saved, fr
        m.state = 2
    return I.mods[key].vars[name]


def kind_of(I, v):
    v = I.norm(v)
    if isinstance(v, Sym):
        d = I.domain(v)
        ks = {I.kind(x) for x in d} if d else set(I.kinds(v))
        return next(iter(ks)) if len(ks) == 1 else "|".join(sorted(ks))
    return I.kind(v)


def deep_same(I, a, b):
    a, b = I.norm(a), I.norm(b)
    if same(I, a, b):
        return True
    if isinstance(a, Sym) and a in I.R.mat and not isinstance(b, Sym):
        a = I.R.mat[a]
    if isinstance(b, Sym) and b in I.R.mat and not isinstance(a, Sym):
        b = I.R.mat[b]
    if isinstance(a, AList) and isinstance(b, AList):
        return len(a.items) == len(b.items) and all(
            (x == y) if isinstance(x, Rest) or isinstance(y, Rest) else deep_same(I, x, y)
            for x, y in zip(a.items, b.items))
    if isinstance(a, ACont) and isinstance(b, ACont):
        if a.base is not b.base:
            return False
        ka = {k for k, v in a.sets.items() if kind_of(I, v) != "missing"}
        kb = {k for k, v in b.sets.items() if kind_of(I, v) != "missing"}
        return ka == kb and all(deep_same(I, a.sets[k], b.sets[k]) for k in ka)
    if isinstance(a, ADict) and isinstance(b, ADict):
        return a.open is b.open and set(a.items) == set(b.items) and all(
            deep_same(I, a.items[k][1], b.items[k][1]) for k in a.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(deep_same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, AObj) and isinstance(b, AObj) and a.cls is b.cls and a.cls.kind != "enum":
        return set(a.attrs) == set(b.attrs) and all(deep_same(I, a.attrs[k], b.attrs[k]) for k in a.attrs)
    return False


def lockeys(loc):
    return tuple(("sym", id(x)) if isinstance(x, Sym) else (type(x).__name__, x) for x in loc)


def same_issues(I, iss, want, what):
    """Multiset comparison of definite entries [(loc, code, stop)] and tokens [(tok, loc)]."""
    es, ts = entries(I, iss)
    wes = sorted([(lockeys(tuple(I.norm(x) for x in e[0])), str(e[1]), e[2]) for e in want if len(e) == 3], key=repr)
    wts = sorted([(str(e[0]), lockeys(tuple(I.norm(x) for x in e[1]))) for e in want if len(e) == 2], key=repr)
    ges = sorted([(lockeys(l), str(c), s) for l, c, s in es], key=repr)
    gts = sorted([(str(t), lockeys(l)) for t, l in ts], key=repr)
    if ges != wes or gts != wts:
        def show(x):
            return [f"{c}@{list(l)}{'!' if s else ''}" for l, c, s in x]
        raise SpecFail(f"{what}: reported {show(es) + ts}, expected {show([e for e in want if len(e) == 3]) + [e for e in want if len(e) == 2]}")
