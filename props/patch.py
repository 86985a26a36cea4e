"""C14, C15: PATCH requests."""
from .common import *
from .schemas import plain, plain_same
from .bulk import same_findings
from .endpoints import Fix, RV, EXT, CORE, TABLE, RO, QS, judge_query, unpack

URN = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
A = "src.data.attributes:"
PT = {
    **TABLE,
    ("mu", "", False): dict(kind="list"),
    ("nu", "", True): dict(kind="list", mutability=RO),
    ("rho", "", False): dict(kind="multi", required=True),
    ("rho", "x", False): dict(required=True),
    ("rho", "y", False): dict(mutability=RO, required=True, issuer="SERVER"),
    ("sigma", "", False): dict(kind="multi", mutability=RO),
    ("sigma", "y", False): dict(),
    ("tau", "", True): dict(kind="multi"),
    ("tau", "x", True): dict(required=True, mutability="IMMUTABLE"),
    ("tau", "y", True): dict(mutability=RO),
    # the same names in the core and in the extension
    ("chi", "", False): dict(required=True),
    ("chi", "", True): dict(kind="list", mutability=RO),
    ("psi", "", False): dict(kind="multi", mutability=RO),
    ("psi", "x", False): dict(),
    ("psi", "", True): dict(),
    ("omega", "", False): dict(kind="single"),
    ("omega", "x", False): dict(mutability=RO),
    ("omega", "z", False): dict(),
    ("omega", "", True): dict(kind="single"),
    ("omega", "x", True): dict(),
    ("omega", "y", True): dict(mutability=RO),
    ("phi", "", False): dict(kind="multi"),
    ("phi", "x", False): dict(mutability=RO),
    ("phi", "y", False): dict(),
    ("phi", "", True): dict(kind="multi"),
    ("phi", "x", True): dict(),
    ("phi", "y", True): dict(mutability=RO),
}
CORE_NAMES = ("schemas", "id", "externalId", "meta")


def top(k):
    return (k[0], "", k[2])


def ro(k):
    return PT[k].get("mutability") == RO or PT[top(k)].get("mutability") == RO


def tag(k):
    return ("ext." if k[2] else "") + k[0] + ("." + k[1] if k[1] else "")


class Patch:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, Fix(ctx)
        self.I = I = self.F.I
        self.s = ctx.setup(I, self.schema)
        self.V = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + "ResourceObjectPATCH"), [self.F.config], {"resource_schema": self.s}))
        self.PP = ctx.get(I, "src.data.path:PatchPath")

    def typ(self, t):
        """a data type known by its contract: 'bad' is rejected, anything else is converted"""
        def proc(direction):
            def f(I, args, kw):
                v = I.norm(args[0] if args else kw.get("value"))
                I.R.events.append(("typed", t, direction, v))
                if v == "bad":
                    return (I.Invalid, issues_of(I, ((), "T " + t, True)))
                return (self.conv(t, v), issues_of(I))
            return StubM(f, t)
        return Stub("type " + t, get={"parse": proc("parse"), "dump": proc("dump"), "SCIM_NAME": "custom", "__name__": "Custom"})

    def conv(self, t, v):
        return f"{t}<{v}>"

    def attr(self, I, k):
        c = PT[k]
        kw = {"required": c.get("required", False), "issuer": self.F.ISS[c.get("issuer", "NOT_SPECIFIED")], "mutability": self.F.MUT[c.get("mutability", "READ_WRITE")]}
        if c.get("kind") in ("single", "multi"):
            return I.call(I.lookup(A + "ComplexAttribute"), [], {"name": k[0], "multi_valued": c["kind"] == "multi", "sub_attributes": I.new_list(
                [self.attr(I, j) for j in PT if top(j) == k and j[1]]), **kw})
        return I.call(I.lookup(A + "Attribute"), [], {"name": k[1] or k[0], "type_": self.typ(tag(k)), "multi_valued": c.get("kind") == "list", **kw})

    def schema(self, I):
        mk = lambda ext: I.new_list([self.attr(I, k) for k in PT if k[2] is ext and not k[1] and k[0] not in CORE_NAMES])
        s = I.call(self.ctx.get(I, "src.data.schemas:ResourceSchema"), [CORE], {"attrs": mk(False), "name": "Thing"})
        meth(I, s, "with_extension", I.call(self.ctx.get(I, "src.data.schemas:SchemaExtension"), [EXT], {"attrs": mk(True)}))
        return s

    # ---------------------------------------------------------------- reference
    def process(self, k, v):
        """(processed value, [(location, code, blocking)]) of a value of an attribute"""
        c = PT[k]
        if v is None:
            return None, []
        if k[0] in CORE_NAMES:
            return v, []
        kind = c.get("kind")
        if kind == "list":
            if not isinstance(v, list):
                return "INVALID", [((), 2, True)]
            out, iss = [], []
            for i, x in enumerate(v):
                y, w = self.one(k, x)
                out.append(y)
                iss += [((i,) + l, *r) for l, *r in w]
            return out, iss
        if kind == "multi":
            if not isinstance(v, list):
                return "INVALID", [((), 2, True)]
            out, iss = [], []
            for i, x in enumerate(v):
                y, w = self.item(k, x)
                out.append(y)
                iss += [((i,) + l, *r) for l, *r in w]
            return out, iss
        if kind == "single":
            return self.item(k, v)
        return self.one(k, v)

    def one(self, k, v):
        if v == "bad":
            return "INVALID", [((), "T " + tag(k), True)]
        return self.conv(tag(k), v), []

    def item(self, k, v):
        if not isinstance(v, dict):
            return "INVALID", [((), 2, True)]
        out, iss = {}, []
        for n, x in v.items():
            j = (k[0], n, k[2])
            if j in PT:
                y, w = self.process(j, x)
                out[n] = y
                iss += [((n,) + l, *r) for l, *r in w]
        return out, iss

    def new_items(self, k, v, iss):
        """required sub-attributes of the items of a multi-valued complex value"""
        out = []
        if PT[k].get("kind") != "multi" or k[1] or not isinstance(v, list):
            return out
        for i, x in enumerate(v):
            if isinstance(x, dict) and not any(l[:1] == (i,) for l, *_ in iss):
                for j in PT:
                    if top(j) == k and j[1] and PT[j].get("required") and PT[j].get("issuer") != "SERVER" and x.get(j[1]) in (None, ""):
                        out.append(((i, j[1]), 15, True))
        return out

    def with_path(self, op, k, filtered, v):
        """findings of an operation on target k=(name, sub, ext); filtered: the path has a filter"""
        if k not in PT:
            return [(("path",), 303, True)], None
        if op == "remove":
            w = []
            if ro(k):
                w.append((("path",), 304, False))
            if PT[k].get("required") and PT[k].get("kind") not in ("single", "multi"):
                w.append((("path",), 306, False))
            return w, None
        if ro(k):
            return [(("value",), 304, True)], None
        out, iss = self.process(k, v)
        if not iss and PT[k].get("kind") in ("single", "multi") and v is not None:
            items = [((i,), x) for i, x in enumerate(v)] if PT[k]["kind"] == "multi" else [((), v)]
            iss = [(l + (j[1],), 304, True) for j in PT if top(j) == k and j[1] and PT[j].get("mutability") == RO for l, x in items if j[1] in x]
        iss = iss + self.new_items(k, v, iss)
        return [(("value",) + l, c, s) for l, c, s in iss], out

    def without_path(self, v):
        if not isinstance(v, dict):
            return [(("value",), 15 if v is None else 2, True)], None
        w, out = [], {}

        def level(d, ext, o):
            for n, x in d.items():
                if n == EXT and not ext:
                    o[n] = {}
                    level(x, True, o[n])
                    continue
                k = (n, "", ext)
                if k not in PT:
                    continue
                pre = (EXT, n) if ext else (n,)
                if n in CORE_NAMES:
                    y, iss = x, []
                    if n == "schemas" and isinstance(x, list):
                        iss = [((i,), 2, True) for i, z in enumerate(x) if not isinstance(z, str)]
                    elif n in ("schemas", "meta") and isinstance(x, str) or n not in ("schemas", "meta") and not isinstance(x, (str, type(None))):
                        iss = [((), 2, True)]
                else:
                    y, iss = self.process(k, x)
                own = list(iss)
                o[n] = y
                if PT[k].get("mutability") == RO:
                    own.append(((), 304, True))
                for j in PT:
                    if top(j) == k and j[1] and PT[j].get("mutability") == RO:
                        xs = x if isinstance(x, list) else [x]
                        if any(isinstance(z, dict) and j[1] in z for z in xs):
                            own.append(((j[1],), 304, True))
                own += self.new_items(k, x, iss)
                w.extend((("value",) + pre + l, c, s) for l, c, s in own)
        level(v, False, out)
        return w, out


def path_text(k, form):
    pre = (EXT + ":") if k[2] else ""
    if form == "core":
        pre = CORE + ":"
    if form == "filter":
        return f'{pre}{k[0]}[y eq "v"]' + (f".{k[1]}" if k[1] else "")
    n = k[0] + (f".{k[1]}" if k[1] else "")
    return pre + (n.upper() if form == "upper" else n)


def values(k):
    """representative values of an attribute: {name: value}"""
    c = PT.get(k, {})
    kind = c.get("kind")
    one, bad = "v", "bad"
    if kind == "list":
        return {"fine": ["v", "w"], "bad item": ["v", "bad"], "not a list": "v", "empty": []}
    if kind in ("single", "multi"):
        subs = [j[1] for j in PT if top(j) == k and j[1]]
        w = [n for n in subs if PT[(k[0], n, k[2])].get("mutability") != RO]
        r = [n for n in subs if n not in w]
        items = {"writable": {n: "v" for n in w}, "unknown member": {**{n: "v" for n in w}, "zz": 1}}
        for n in r:
            items["read-only " + n] = {**{m: "v" for m in w}, n: "v"}
            items["null read-only " + n] = {**{m: "v" for m in w}, n: None}
        for n in w:
            items["bad " + n] = {**{m: "v" for m in w}, n: "bad"}
            items["no " + n] = {m: "v" for m in w if m != n}
        if r:
            items["bad and read-only"] = {**{n: "v" for n in r}, **{n: "bad" for n in w}}
            items["only read-only"] = {n: "v" for n in r}
        items["text"] = "x"
        if kind == "single":
            return items
        out = {}
        for n, x in items.items():
            out["first " + n] = [x, dict(items["writable"])]
            if n != "writable":
                out["second " + n] = [dict(items["writable"]), x]
        out["not a list"], out["empty"], out["one"] = items["writable"], [], [items["writable"]]
        return out
    return {"fine": one, "bad": bad}


TARGETS = [k for k in PT if k[0] not in ("schemas", "meta") or k == ("meta", "version", False) or k == ("meta", "", False)]
UNKNOWN = [("zulu", "", False), ("alpha", "", True), ("eps", "z", False), ("zulu", "y", True)]


def run(P, I, ops, what, extra=None, **kw):
    h = opaque(I, "headers", kinds=["other"])
    body = {"schemas": [URN], "Operations": ops} if extra is None else extra
    data, get, iss = unpack(I, meth(I, P.V, "parse_request", body=jd(I, body) if isinstance(body, dict) else body, headers=h, **kw), "")
    expect(same(I, get("headers"), h), f"{what}: headers are changed")
    return get, iss


def judge_issues(I, iss, want, what, only):
    """only(code): the findings this property is about"""
    es, ts = entries(I, iss)
    sub = AIss(I.serial)
    sub.entries = [e for e in I.norm(iss).entries if isinstance(e, E) and only(e.code)]
    same_findings(I, sub, [w for w in want if only(w[1])], what)


def judge_body(P, I, get, want, ops, what):
    """ops: [(op, path description or None, value)] expected"""
    b = get("body")
    if want:
        expect(b is None, f"{what}: findings are reported, yet the body is usable")
        return
    expect(b is not None, f"{what}: nothing is reported, yet there is no body")
    xs = list(I.items_of(I.getitem(b, I.call(P.F.Rep, [], {"attr": "Operations"}))))
    expect(len(xs) == len(ops), f"{what}: {len(xs)} operations are handed on")
    for i, ((op, target, value), x) in enumerate(zip(ops, xs)):
        item = lambda n: I.norm(I.getitem(x, I.call(P.F.Rep, [], {"attr": n})))
        expect(same(I, item("op"), op), f"{what}: operation {i} becomes {item('op')!r}")
        p = item("path")
        if target is None:
            expect(p is None or same(I, p, I.Missing), f"{what}: operation {i} gets path {p!r}")
        else:
            expect(isinstance(p, AObj) and p.cls is P.PP, f"{what}: path of operation {i} is {p!r}")
            k, form = target
            rep = lambda r: tuple(str(I.norm(I.getattr(r, n))).lower() for n in ("schema", "attr", "sub_attr"))
            schema = EXT.lower() if k[2] else CORE.lower() if form == "core" else ""
            top_, sub = (schema, k[0].lower(), "" if form == "filter" else k[1].lower()), I.norm(I.getattr(p, "complex_filter_attr_rep"))
            expect(rep(I.getattr(p, "attr_rep")) == top_, f"{what}: path of operation {i} addresses {rep(I.getattr(p, 'attr_rep'))}, expected {top_}")
            expect((I.norm(I.getattr(p, "complex_filter")) is not None) == (form == "filter"), f"{what}: filter of operation {i} is lost")
            want_sub = (schema, k[0].lower(), k[1].lower()) if form == "filter" and k[1] else None
            expect((rep(sub) if sub is not None else None) == want_sub, f"{what}: path of operation {i} addresses sub-attribute {sub!r}")
        v = item("value")
        if value is None:
            expect(v is None or same(I, v, I.Missing), f"{what}: operation {i} has value {plain(I, v)!r}")
        else:
            low = lambda d: {n.lower(): low(x) for n, x in d.items()} if isinstance(d, dict) else [low(x) for x in d] if isinstance(d, list) else d
            expect(plain_same(I, plain(I, v), low(value)), f"{what}: value of operation {i} becomes {plain(I, v)!r}, expected {value!r}")


def scenarios(ctx, P, only, ro_only=False, kinds=("add", "replace", "remove")):
    I = P.I
    full = ctx.tier == "thorough"

    def paths(I):
        ks = [k for k in TARGETS if not ro_only or ro(k) or any(top(j) == k and j[1] and PT[j].get("mutability") == RO for j in PT)
              or k in (("alpha", "", False), ("delta", "y", False), ("eps", "y", False), ("mu", "", False), ("kappa", "y", True))] + ([] if ro_only else UNKNOWN)
        k = pick(I, "target", ks)
        forms = ["plain"] + (["upper"] if full or k[0] in ("eps", "zeta", "alpha") else []) + (["core"] if not k[2] and (full or k[0] in ("delta", "beta")) else [])
        if PT.get(top(k), {}).get("kind") == "multi":
            forms.append("filter")
        form = pick(I, "form", forms)
        op = pick(I, "op", list(kinds))
        vs = values(k) if k in PT else {"fine": "v"}
        if form in ("upper", "core") and len(vs) > 2:
            vs = {n: vs[n] for n in list(vs)[:4]}
        vn = pick(I, "value", vs) if op != "remove" else pick(I, "value", ["none", "given"] if k == ("alpha", "", False) else ["none"])
        v = vs.get(vn, "v" if vn == "given" else None)
        o = {"op": op, "path": path_text(k, form)}
        if v is not None:
            o["value"] = v
        what = f"{op} {o['path']} value {v!r}"
        get, iss = run(P, I, [o], what)
        if form == "filter" and not k[1] and op == "add":
            want, out = [(("path",), 305, True)], None
            sub = AIss(I.serial)        # what else is said about the value of a badly addressed operation is not specified
            sub.entries = [e for e in I.norm(iss).entries if "value" not in e.loc]
            iss = sub
        else:
            want, out = P.with_path(op, k, form == "filter", v)
        want = [(("body", "Operations", 0) + l, c, s) for l, c, s in want]
        judge_issues(I, iss, want, what, only)
        judge_body(P, I, get, want, [(op, (k, form), out)], what)
    ctx.case(I, "operations with a path", paths, max_paths=20000)

    DOCS = {}
    for k in PT:
        if k[1] or k[0] in ("schemas",):
            continue
        if k[0] == "meta":
            vals = {"read-only": {"version": "v"}}
        elif k[0] in CORE_NAMES:
            vals = {"value": "v"}
        else:
            vals = values(k)
        for n, v in vals.items():
            DOCS[f"{tag(k)} {n}"] = {EXT: {k[0]: v}} if k[2] else {k[0]: v}
    DOCS["several"] = {"alpha": "v", "delta": {"y": "v"}, "mu": ["v"], EXT: {"eta": "v", "kappa": [{"y": "v"}]}}
    DOCS["several, one read-only"] = {"alpha": "v", "beta": "v", EXT: {"eta": "v"}}
    DOCS["several, one read-only in the extension"] = {"alpha": "v", EXT: {"eta": "v", "zeta": "v"}}
    DOCS["same names"] = {"chi": "v", "omega": {"z": "v"}, EXT: {"psi": "v", "omega": {"x": "v"}}}
    DOCS["same names, read-only"] = {"psi": [{"x": "v"}], "omega": {"x": "v"}, EXT: {"chi": ["v"], "omega": {"y": "v"}}}
    DOCS["several bad"] = {"alpha": "bad", "beta": "bad", EXT: {"eta": "bad", "tau": [{"y": "v"}]}}
    DOCS["unknown"] = {"zulu": 1, "alpha": "v"}
    DOCS["nothing"] = {}
    DOCS["null alpha"] = {"alpha": None}
    for n, v in {"known": [CORE, EXT], "core only": [CORE], "unknown": [CORE, EXT, "urn:x:other"], "extension only": [EXT], "text": CORE, "text of another": "urn:x:other",
                 "a number": [CORE, 5, EXT], "only a number": [5]}.items():
        DOCS["schemas, " + n] = {"schemas": v, "alpha": "v", EXT: {"eta": "v"}}
    DOCS["core attributes of wrong types"] = {"id": 5, "externalId": 5, "meta": "x", "alpha": "v"}
    DOCS["external id of a wrong type"] = {"externalId": ["e"], "schemas": [CORE]}
    DOCS["null read-only"] = {"beta": None}
    BAD = {"text": "x", "list": ["x"], "null": None, "absent": "absent"}

    def no_path(I):
        n = pick(I, "value", [*DOCS, *([] if ro_only else BAD)])
        op = pick(I, "op", ["add", "replace"])
        null = pick(I, "path", ["absent", "null"]) if n in ("several", "beta fine") else "absent"
        v = DOCS.get(n, BAD.get(n))
        o = {"op": op, **({"path": None} if null == "null" else {}), **({"value": v} if v != "absent" else {})}
        what = f"{op} without path, value {v!r}"
        if n in ("null", "absent") and op == "replace":
            raise Skip()
        get, iss = run(P, I, [o], what)
        if n in ("null", "absent"):
            want, out = [(("value",), 15, True)], None
        else:
            want, out = P.without_path(v)
        want = [(("body", "Operations", 0) + l, c, s) for l, c, s in want]
        judge_issues(I, iss, want, what, only)
        judge_body(P, I, get, want, [(op, None, out)], what)
    ctx.case(I, "operations without a path", no_path, max_paths=20000)

    FINE = {"add alpha": ({"op": "add", "path": "alpha", "value": "v"}, []), "remove externalId": ({"op": "remove", "path": "externalId"}, []),
            "replace eps": ({"op": "replace", "path": "eps", "value": [{"y": "v"}]}, []), "no path": ({"op": "replace", "value": {"alpha": "v", "mu": ["v"]}}, []),
            "read-only": ({"op": "replace", "path": "beta", "value": "v"}, [(("value",), 304, True)]),
            "remove read-only": ({"op": "remove", "path": EXT + ":zeta"}, [(("path",), 304, False)]),
            "read-only sub-attribute": ({"op": "add", "path": "eps", "value": [{"y": "v"}, {"y": "v", "x": "v"}]}, [(("value", 1, "x"), 304, True)]),
            "no path, read-only": ({"op": "add", "value": {"alpha": "v", EXT: {"zeta": "v"}}}, [(("value", EXT, "zeta"), 304, True)])}
    OTHER = {"unknown": ({"op": "add", "path": "zulu", "value": "v"}, [(("path",), 303, True)]),
             "bad value": ({"op": "add", "path": "alpha", "value": "bad"}, [(("value",), "T alpha", True)]),
             "incomplete item": ({"op": "add", "path": "rho", "value": [{"x": "v"}, {"zz": 1}]}, [(("value", 1, "x"), 15, True)]),
             "remove without path": ({"op": "remove"}, [(("path",), 15, True)]), "add without value": ({"op": "add", "path": "alpha"}, [(("value",), 15, True)]),
             "remove required": ({"op": "remove", "path": "alpha"}, [(("path",), 306, False)])}
    OUT = {"add alpha": ("add", (("alpha", "", False), "plain"), "alpha<v>"), "remove externalId": ("remove", (("externalId", "", False), "plain"), None),
           "replace eps": ("replace", (("eps", "", False), "plain"), [{"y": "eps.y<v>"}]), "no path": ("replace", None, {"alpha": "alpha<v>", "mu": ["mu<v>"]})}

    def several(I):
        both = {**FINE, **OTHER} if not ro_only else FINE
        a, b = pick(I, "first", both), pick(I, "second", both)
        what = f"PATCH of [{a}, {b}]"
        get, iss = run(P, I, [both[a][0], both[b][0]], what)
        want = [(("body", "Operations", i) + l, c, s) for i, n in enumerate((a, b)) for l, c, s in both[n][1]]
        judge_issues(I, iss, want, what, only)
        judge_body(P, I, get, want, [OUT.get(a), OUT.get(b)], what)
    ctx.case(I, "several operations", several, max_paths=20000)


def shapes(ctx, P):
    I = P.I
    ok = {"op": "add", "path": "alpha", "value": "v"}
    out = ("add", (("alpha", "", False), "plain"), "alpha<v>")
    OPS = {"upper case op": ({**ok, "op": "ADD"}, [(("op",), 14, True)]), "unknown op": ({**ok, "op": "move"}, [(("op",), 14, True)]),
           "op not text": ({**ok, "op": 5}, [(("op",), 2, True)]), "no op": ({"path": "alpha", "value": "v"}, [(("op",), 15, True)]),
           "null op": ({**ok, "op": None}, [(("op",), 15, True)]), "no op, no value": ({"path": "alpha"}, [(("op",), 15, True)]),
           "no op, no path": ({"value": {"alpha": "v"}}, [(("op",), 15, True)]),
           "path not text": ({**ok, "path": 5}, [(("path",), 2, True)]), "bad path": ({**ok, "path": "a b"}, [(("path",), 111, True)]),
           "path with two dots": ({**ok, "path": "a.b.c"}, [(("path",), 111, True)]),
           "open bracket": ({**ok, "path": 'eps[y eq "v"'}, [(("path",), 300, True)]), "brackets swapped": ({**ok, "path": "eps]y pr["}, [(("path",), 300, True)]),
           "two filters": ({**ok, "path": "eps[y pr].x[z pr]"}, [(("path",), 300, True)]), "bad filter": ({**ok, "path": "eps[y zz 5]"}, [(("path",), 105, True)]),
           "filter of a filter": ({**ok, "path": "eps[y pr].rho.y"}, [(("path",), 33, True)]), "bad sub-attribute": ({**ok, "path": "eps[y pr].x y"}, [(("path",), 111, True)]),
           "remove null path": ({"op": "remove", "path": None}, [(("path",), 15, True)]), "add null value": ({**ok, "value": None}, [(("value",), 15, True)]),
           "add filter without value": ({"op": "add", "path": "eps[y pr]"}, [(("path",), 305, True), (("value",), 15, True)]),
           "not an object": ("x", [((), 2, True)]), "null": (None, [((), 2, True)]), "fine": (ok, []),
           "other case": ({"OP": "add", "Path": "alpha", "vaLue": "v"}, []), "junk": ({**ok, "zz": 1}, [])}

    def malformed(I):
        n = pick(I, "operation", OPS)
        pos = pick(I, "position", ["alone", "first", "second"])
        o, w = OPS[n]
        ops = {"alone": [o], "first": [o, ok], "second": [ok, o]}[pos]
        i = 1 if pos == "second" else 0
        what = f"PATCH with an operation that is {n} ({pos})"
        get, iss = run(P, I, ops, what)
        want = [(("body", "Operations", i) + l, c, s) for l, c, s in w]
        same_findings(I, iss, want, what)
        judge_body(P, I, get, want, [out] * len(ops), what)
    ctx.case(I, "malformed operations", malformed)

    def bodies(I):
        sh = pick(I, "body", ["none", "text", "list", "no operations", "null operations", "empty operations", "text operations", "object operations", "no schemas", "wrong schemas", "other case"])
        d = {"schemas": [URN], "Operations": [ok]}
        want = []
        if sh == "no operations":
            del d["Operations"]
            want = [(("body", "Operations"), 15, True)]
        elif sh in ("null operations", "empty operations"):
            d["Operations"] = None if sh == "null operations" else []
            want = [(("body", "Operations"), 15, True)]
        elif sh in ("text operations", "object operations"):
            d["Operations"] = "x" if sh == "text operations" else ok
            want = [(("body", "Operations"), 2, True)]
        elif sh == "no schemas":
            del d["schemas"]
            want = [(("body", "schemas"), 15, True)]
        elif sh == "wrong schemas":
            d["schemas"] = ["urn:x", URN]
            want = [(("body", "schemas"), 27, False)]
        elif sh == "other case":
            d = {k.upper(): v for k, v in d.items()}
        if sh in ("none", "text", "list"):
            d = {"none": None, "text": "x", "list": I.new_list([])}[sh]
            want = [(("body",), 15 if sh == "none" else 2, True)]
        what = f"PATCH request, {sh}"
        q = pick(I, "query string", QS)
        given = jd(I, QS[q][0]) if QS[q][0] is not None else None
        h = opaque(I, "headers", kinds=["other"])
        data, get, iss = unpack(I, meth(I, P.V, "parse_request", body=jd(I, d), headers=h, query_string=given), "")
        expect(same(I, get("headers"), h), f"{what}: headers are changed")
        want = want + list(QS[q][2])
        same_findings(I, iss, want, what)
        judge_query(I, get("query_string"), given, q, what)
        judge_body(P, I, get, want, [out], what)
    ctx.case(I, "shapes of PATCH requests", bodies)


def c14(ctx):
    P = Patch(ctx)
    ctx.rule("each operation names add, remove or replace; remove needs a path, add a value; the target must exist; required attributes are not removed; an operation that adds, replaces or "
             "removes a read-only attribute, a sub-attribute of one or a read-only sub-attribute - by path, through a filter, inside the value or its items, in the core or an extension - is "
             "reported at its place and leaves no usable body; operations on other attributes never are; operations are handed on in order with path and processed value")
    scenarios(ctx, P, lambda c: True)
    shapes(ctx, P)


def c15(ctx):
    P = Patch(ctx)
    ctx.rule("the value is processed by the definition of exactly the attribute addressed, each part of it by its own; read-only parts are reported where they are, and new items have their "
             "required sub-attributes; the processed value is handed on")
    scenarios(ctx, P, lambda c: True, kinds=("add", "replace"))
