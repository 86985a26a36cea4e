"""C21: the data container is a case-insensitive map with namespaces; C22: attribute names."""
from .common import *

SC = "src.data.container:SCIMDataContainer"
E_ = "urn:x:Ext"


class M:
    """Reference semantics of the container."""

    def __init__(self):
        self.d = {}          # lower -> (spelling, value)

    def raw(self, k):
        return self.d.get(k.lower(), (None, MISSING))[1]

    def put(self, k, v):
        old = self.d.get(k.lower())
        self.d[k.lower()] = (old[0] if old else k, v)

    def get(self, rep):
        sch, at, sub, ext = rep
        if sch and sch.lower() in self.d:
            v = self.raw(sch)
            return v.get(("", at, sub, False)) if isinstance(v, M) else MISSING
        if ext:
            return MISSING
        v = self.raw(at)
        if not sub or v is MISSING:
            return v
        if isinstance(v, M):
            return v.raw(sub)
        if isinstance(v, list):
            return [x.raw(sub) if isinstance(x, M) else MISSING for x in v]
        return MISSING

    def set(self, rep, val):
        sch, at, sub, ext = rep
        if ext:
            v = self.raw(sch)
            if v is MISSING:
                v = M()
                self.put(sch, v)
            if not isinstance(v, M):
                raise Skip()
            v.set(("", at, sub, False), val)
        elif sub:
            v = self.raw(at)
            if v is MISSING:
                v = [] if isinstance(val, list) else M()
                self.put(at, v)
            elif isinstance(v, list) and not v or isinstance(v, M) and isinstance(val, list):
                raise Skip()
            elif isinstance(v, list) and not (isinstance(val, list) and all(isinstance(x, M) for x in v)) or not isinstance(v, (M, list)):
                raise KeyError()
            if isinstance(val, list):
                while len(v) < len(val):
                    v.append(M())
                for x, c in zip(val, v):
                    if x is not MISSING:
                        c.put(sub, x)
            else:
                v.put(sub, val)
        else:
            self.put(at, val)

    def delete(self, rep):
        sch, at, sub, ext = rep
        if sch and sch.lower() in self.d:
            v = self.raw(sch)
            if isinstance(v, M):
                v.delete(("", at, sub, False))
            return
        if ext:
            return
        v = self.raw(at)
        if v is MISSING:
            return
        if not sub:
            del self.d[at.lower()]
        elif isinstance(v, M):
            v.d.pop(sub.lower(), None)
        elif isinstance(v, list):
            if not all(isinstance(x, M) for x in v):
                raise Skip()
            for x in v:
                x.d.pop(sub.lower(), None)


MISSING = object()


def model(I, x):
    """host literal -> model value (dict -> M)"""
    if isinstance(x, dict):
        m = M()
        for k, v in x.items():
            if isinstance(k, str):
                m.put(k, model(I, v))
        return m
    if isinstance(x, list):
        return [model(I, v) for v in x]
    return x


def host(I, v):
    """abstract value -> host value for comparison with the model's rendering"""
    v = I.norm(v)
    if isinstance(v, AObj) and v.cls.name == "SCIMDataContainer":
        return host(I, meth(I, v, "to_dict"))
    if isinstance(v, ADict):
        if v.open is not None:
            raise SpecFail("content is not determined by the operations")
        return {I.norm(k): host(I, x) for k, x in v.items.values()}
    if isinstance(v, AList):
        return [host(I, x) for x in v.items]
    if same(I, v, I.Missing):
        return MISSING
    return v


def render(m):
    if isinstance(m, M):
        return {s: render(v) for s, v in m.d.values()}
    if isinstance(m, list):
        return [render(x) for x in m]
    return m


def agree(I, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(agree(I, a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(I, x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)) or a is MISSING or b is MISSING:
        return a is b
    return same(I, a, b)


NAMES = {
    "a": ("", "a", "", False), "A": ("", "A", "", False), "b": ("", "b", "", False),
    "a.x": ("", "a", "x", False), "A.X": ("", "A", "X", False), "a.y": ("", "a", "y", False),
    "ext a": (E_, "a", "", True), "EXT A": (E_.upper(), "A", "", True), "ext a.x": (E_, "a", "x", True),
    "ext c": (E_, "c", "", True), "qualified a": (E_, "a", "", False), "other a": ("urn:x:core", "a", "", False),
    "other a.x": ("urn:x:core", "a", "x", False),
}


def c21(ctx):
    I = ctx.interp(native_cont=False)
    C = ctx.get(I, SC)
    Rep = ctx.get(I, "src.data.container:AttrRep")
    ctx.rule("get/set/delete/render act on a map keyed by lower-cased names, with one namespace per extension and sub-attribute "
             "access through complex values and lists of them, exactly as the reference map")

    def v(I, n):
        return opaque(I, n, kinds=["str", "int", "bool", "none"])

    def states(I):
        return {
            "empty": {},
            "simple": {"a": v(I, "v0"), "b": v(I, "v1")},
            "upper case": {"A": v(I, "v0"), "B": v(I, "v1")},
            "complex": {"A": {"x": v(I, "v0"), "Y": v(I, "v1")}, "b": v(I, "v2")},
            "list": {"a": [{"X": v(I, "v0")}, {"y": v(I, "v1")}]},
            "texts": {"a": [v(I, "v0"), v(I, "v1")]},
            "mixed": {"a": [{"X": v(I, "v0")}, v(I, "v1")]},
            "extension": {E_.lower(): {"A": v(I, "v0"), "c": v(I, "v1")}, "a": v(I, "v2")},
            "extension complex": {E_: {"a": {"x": v(I, "v0")}}},
            "extension not complex": {E_: v(I, "v0"), "a": v(I, "v1")},
            "twice": {"a": v(I, "v0"), "A": v(I, "v1"), 5: v(I, "v2")},
        }

    def observe(I, c, m, label):
        for n, rep in NAMES.items():
            sch, at, sub, ext = rep
            r = I.call(Rep, [], {"schema": sch, "attr": at, "sub_attr": sub, "extension": ext})
            got, want = host(I, I.getitem(c, r)), render(m.get(rep))
            expect(agree(I, got, want), f"{label}: reading {n!r} gives {'nothing' if got is MISSING else got}, "
                                        f"expected {'nothing' if want is MISSING else want}")
            if not sch:
                s = at + ("." + sub if sub else "")
                expect(agree(I, host(I, I.getitem(c, s)), want), f"{label}: reading by the text {s!r} differs from {want}")
        got, want = host(I, c), render(m)
        expect(agree(I, got, want), f"{label}: rendered as {got}, expected {want}")

    SETS = ["a", "A", "a.x", "A.X", "a.y", "ext a", "EXT A", "ext a.x"]
    DELS = ["a", "A", "a.x", "A.X", "ext a", "EXT A", "ext a.x", "qualified a", "other a", "b"]

    def apply(I, c, m, k):
        op = pick(I, f"operation {k}", ["set " + n for n in SETS] + ["set list a.x", "set list A"] + ["delete " + n for n in DELS])
        kind, _, n = op.partition(" ")
        if n.startswith("list "):
            n = n[5:]
            mv = [v(I, f"w{k}0"), v(I, f"w{k}1")]
            val = I.new_list(list(mv))
            if n == "a.x" and pick(I, "sparse", [False, True]):
                mv[0] = MISSING
                val = I.new_list([I.Missing, mv[1]])
        else:
            mv = val = v(I, f"w{k}")
        sch, at, sub, ext = NAMES.get(n, ("", *(n.split(".") + [""])[:2], False))
        if n in NAMES:
            sch, at, sub, ext = NAMES[n]
        r = I.call(Rep, [], {"schema": sch, "attr": at, "sub_attr": sub, "extension": ext})
        if kind == "set":
            try:
                m.set((sch, at, sub, ext), mv)
            except KeyError:
                try:
                    I.setitem(c, r, val)
                except AbsRaise as e:
                    expect(I.exc_name(e) == "KeyError", f"{op} raises {I.exc_name(e)}")
                    observe(I, c, m, f"refused {op}")
                    raise Skip()
                raise SpecFail(f"{op} on a value without sub-attributes is not refused")
            I.setitem(c, r, val)
        else:
            m.delete((sch, at, sub, ext))
            I.delitem(c, r)
        return op

    for st in ("empty", "simple", "upper case", "complex", "list", "texts", "mixed", "extension", "extension complex",
               "extension not complex", "twice"):
        def history(I, st=st):
            d = states(I)[st]
            c = I.call(C, [jd(I, d)], {})
            m = model(I, d)
            ops = []
            for k in range(2 if ctx.tier == "thorough" else pick(I, "length", [0, 1, 2])):
                if k == 1 and ctx.tier != "thorough" and st in ("texts", "mixed", "twice", "extension not complex"):
                    raise Skip()
                ops.append(apply(I, c, m, k))
            observe(I, c, m, f"{st} after {ops}")
        ctx.case(I, f"history from {st}", history, max_paths=40000)

    def equality(I):
        x, y = v(I, "x"), v(I, "y")
        forms = {
            "one": {"a": x, "b": y}, "one other case": {"A": x, "B": y}, "more": {"a": x, "b": y, "c": 1}, "less": {"a": x},
            "nested": {"a": {"x": x}, "b": [{"Y": y}]}, "nested other case": {"A": {"X": x}, "b": [{"y": y}]},
            "nested different": {"A": {"X": x}, "b": [{"y": y, "z": 1}]}, "other values": {"a": y, "b": x}, "empty": {}, "dotted": {"a.b": x}, "dotted other case": {"A.B": x}, "dotted different": {"a.b": y},
            "qualified": {"urn:x:Ext": {"a": x}, "urn:x:y.z": y}, "qualified other case": {"URN:x:ext": {"A": x}, "urn:X:Y.Z": y},
        }
        n1, n2 = pick(I, "left", forms), pick(I, "right", forms)
        low = lambda f: {k.lower(): ({a.lower(): b for a, b in q.items()} if isinstance(q, dict) else
                                     [{a.lower(): b for a, b in z.items()} for z in q] if isinstance(q, list) else q)
                         for k, q in f.items()}

        def eq(p, q):
            if isinstance(p, dict) and isinstance(q, dict):
                return set(p) == set(q) and all([eq(p[k], q[k]) for k in sorted(p)])
            if isinstance(p, list) and isinstance(q, list):
                return len(p) == len(q) and all([eq(s, t) for s, t in zip(p, q)])
            if isinstance(p, (dict, list)) or isinstance(q, (dict, list)):
                return False
            return I.eq(p, q)
        want = eq(low(forms[n1]), low(forms[n2]))
        c1, c2 = I.call(C, [jd(I, forms[n1])], {}), I.call(C, [jd(I, forms[n2])], {})
        got = I.eq(c1, c2)
        expect(got == want, f"containers {n1!r} and {n2!r} are {'equal' if got else 'different'}")
        expect(I.eq(c2, c1) == want, f"equality of {n1!r} and {n2!r} is not symmetric")
        expect(I.eq(c1, jd(I, forms[n2])) == want, f"container {n1!r} compared with the mapping {n2!r}")
        expect(not I.eq(c1, 5) and not I.eq(c1, "a"), "container equals a value of another type")
    ctx.case(I, "equality", equality, max_paths=20000)

    def wrap(I):
        d = pick(I, "state", ["simple", "complex", "list", "extension"])
        st = states(I)[d]
        c = I.call(C, [I.call(C, [jd(I, st)], {})], {})
        observe(I, c, model(I, st), f"container of a container ({d})")
    ctx.case(I, "container of a container", wrap)

    def badname(I):
        c = I.call(C, [I.new_dict([("a", 1)])], {})
        n = pick(I, "name", ["", "a b", "a.b.c", ".a", "a."])
        op = pick(I, "operation", ["read", "write", "delete"])
        try:
            if op == "read":
                I.getitem(c, n)
            elif op == "write":
                I.setitem(c, n, 1)
            else:
                I.delitem(c, n)
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError", f"{op} of the name {n!r} raises {I.exc_name(e)}")
            return
        raise SpecFail(f"{op} of the malformed name {n!r} is not refused")
    ctx.case(I, "malformed names", badname)


# ------------------------------------------------------------------ C22
def c22(ctx):
    I = ctx.interp()
    Rep = ctx.get(I, "src.data.container:AttrRep")
    ctx.rule("two names denote the same attribute exactly when attribute and sub-attribute agree ignoring case and the schemas agree "
             "ignoring case where both name one; text is split into schema, attribute and sub-attribute; malformed text is rejected")
    SCH, AT, SUB = ["", "urn:x", "URN:X", "urn:y", "foo:x", "urn:x:y"], ["a_b", "A_B", "ab", "b", "a"], ["", "s", "S", "t", "s_"]

    def mk(I, sch, at, sub, ext=False):
        return I.call(Rep, [], {"schema": sch, "attr": at, "sub_attr": sub, "extension": ext})

    def equality(I):
        l = (pick(I, "schema", ["", "urn:x", "URN:X"]), "a_b", pick(I, "sub-attribute", ["", "s"]))
        r = (pick(I, "other schema", SCH), pick(I, "other attribute", AT), pick(I, "other sub-attribute", SUB))
        ext = bool(r[0]) and pick(I, "extension", [False, True])
        a, b = mk(I, *l), mk(I, *r, ext)
        top = (not l[0] or not r[0] or l[0].lower() == r[0].lower()) and l[1].lower() == r[1].lower()
        want = top and l[2].lower() == r[2].lower()
        expect(I.eq(a, b) == want, f"{l} and {r} are {'different' if want else 'equal'}")
        expect(I.eq(b, a) == want, f"{r} and {l} are {'different' if want else 'equal'}")
        expect(I.truth(meth(I, a, "top_level_equals", b)) == top, f"top-level attributes of {l} and {r}")
        expect(I.truth(meth(I, b, "top_level_equals", a)) == top, f"top-level attributes of {r} and {l}")
        g = I.norm(meth(I, I.call(I.lookup("src.data.attributes:Attributes"), [I.new_list([I.call(
            I.lookup("src.data.attributes:Attribute"), [], {"name": b, "type_": I.lookup("src.data.type:String")})])], {}), "get", a))
        expect((g is not None) == want, f"looking up {l} among attributes holding {r} {'fails' if want else 'succeeds'}")
    ctx.case(I, "equality", equality, max_paths=20000)

    def other(I):
        a = mk(I, "", "a", "")
        for o in ("a", 1, None):
            expect(not I.eq(a, o), f"attribute name equals {o!r}")
    ctx.case(I, "equality with other types", other)

    TREE = [("urn:x:Core", "userName", ()), ("urn:x:Core", "name", ("familyName", "given_Name")), ("urn:x:Core", "mails", ("val", "value", "$ref")),
            ("urn:x:Ext", "userName", ()), ("urn:x:Ext", "manager", ("value", "displayName"))]
    FLAT = [(u, n, s) for u, n, subs in TREE for s in ("", *subs)]
    MIX = {"as declared": str, "lower": str.lower, "upper": str.upper}

    def world(I):
        A, Cx, S = (I.lookup(f"src.data.attributes:{n}") for n in ("Attribute", "ComplexAttribute", "Attributes"))
        T = I.lookup("src.data.type:String")

        def attr(n, subs, **kw):
            if subs:
                return I.call(Cx, [], {"name": n, "sub_attributes": I.new_list([I.call(A, [], {"name": x, "type_": T}) for x in subs]), **kw})
            return I.call(A, [], {"name": n, "type_": T, **kw})
        s = I.call(I.lookup("src.data.schemas:ResourceSchema"), ["urn:x:Core"], {
            "name": "Thing", "attrs": I.new_list([attr(n, subs) for u, n, subs in TREE if u == "urn:x:Core"])})
        meth(I, s, "with_extension", I.call(I.lookup("src.data.schemas:SchemaExtension"), ["urn:x:Ext"], {
            "name": "Ext", "attrs": I.new_list([attr(n, subs) for u, n, subs in TREE if u == "urn:x:Ext"])}))
        return I.getattr(s, "attrs")

    def ident(I, a):
        a = I.norm(a)
        return None if a is None else tuple(I.norm(I.getattr(I.getattr(a, "rep"), n)) for n in ("schema", "attr", "sub_attr"))

    def lookup(I):
        """a schema and its extension are searched by name, in any spelling"""
        attrs = world(I)
        u = pick(I, "schema", ["", "urn:x:Core", "URN:X:CORE", "urn:x:ext", "urn:y"])
        n = pick(I, "attribute", ["userName", "user", "name", "mails", "manager", "other"])
        sub = pick(I, "sub-attribute", ["", "familyName", "given_Name", "value", "va", "val", "$ref", "displayName", "other"])
        f = MIX[pick(I, "spelling", MIX)]
        want = next((e for e in FLAT if (not u or u.lower() == e[0].lower()) and (n.lower(), sub.lower()) == (e[1].lower(), e[2].lower())), None)
        g = ident(I, meth(I, attrs, "get", mk(I, u, f(n), f(sub))))
        expect(g == want, f"looking up {(u, f(n), f(sub))} finds {g}, expected {want}")
        if u or "$" in sub:
            return
        k = f(n) + ("__" + f(sub) if sub else "")
        try:
            g = ident(I, I.getattr(attrs, k))
        except AbsRaise as e:
            expect(I.exc_name(e) == "AttributeError" and want is None, f"looking up {k!r} raises {I.exc_name(e)}")
            return
        expect(g == want, f"looking up {k!r} finds {g}, expected {want}")
    ctx.case(I, "look-up in a schema", lookup, max_paths=4000)

    def parts(I, r):
        return tuple(I.norm(I.getattr(r, n)) for n in ("schema", "attr", "sub_attr"))

    PRE = ["", "urn:x:", "urn:ietf:params:scim:schemas:core:2.0:User:", "a-b.c_d:", "x:", "urn:x.:", "urn:x-:", "urn:-x:2.0.:"]
    NM = ["a", "userName", "$ref", "$REF", "a1_", "1a", "A"]

    def good(I):
        p, n, s = pick(I, "prefix", PRE), pick(I, "name", NM), pick(I, "sub", ["", "s", "$ref", "$Ref", "familyName", "1"])
        t = p + n + ("." + s if s else "")
        r = I.norm(meth(I, Rep, "parse", t))
        expect(isinstance(r, AObj), f"well-formed name {t!r} is rejected")
        expect(parts(I, r) == (p[:-1], n, s), f"{t!r} is split into {parts(I, r)}")
        expect(not I.truth(I.getattr(r, "extension")), f"{t!r} is taken for an extension attribute")
        expect(I.norm(I.getattr(r, "attr_with_schema")) == (p + n), f"qualified name of {t!r} is {I.norm(I.getattr(r, 'attr_with_schema'))!r}")
    ctx.case(I, "well-formed names", good)

    BAD = ["", ".", "a.", ".a", "a.b.c", "a b", "a[", "a]", "a:", "urn:x:", "a.b.", " a", "a ", "$", "a$", "$refx", "a$ref", "a\n",
           "a.b\n", "urn:x:a.b.c", "a,b", "a/b", "a-b", "a.b-c", "urn x:a", "\ta", "a..b", "a:.b", ":a", "a eq 1", "urn::a", "::a", "urn:x::a.b", "a.:b.c.d", "urn:x:a:"]

    def bad(I):
        t = pick(I, "text", BAD)
        r = I.norm(meth(I, Rep, "parse", t))
        expect(same(I, r, I.Invalid), f"malformed name {t!r} is accepted")
    ctx.case(I, "malformed names", bad)

    def ctor(I):
        sch, at, sub = pick(I, "schema", ["", "urn:x", "urn x"]), pick(I, "attr", ["a", "$ref", "", "a.b", "a:b", "a b", "a$"]), \
            pick(I, "sub", ["", "s", "$ref", "s.t", "s t", "s:t", ".", "$"])
        ext = pick(I, "extension", [False, True])
        ok = sch != "urn x" and at in ("a", "$ref") and sub in ("", "s", "$ref") and not (ext and not sch)
        try:
            r = mk(I, sch, at, sub, ext)
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError" and not ok, f"name ({sch!r}, {at!r}, {sub!r}, extension={ext}) raises {I.exc_name(e)}")
            return
        expect(ok, f"malformed name ({sch!r}, {at!r}, {sub!r}, extension={ext}) is accepted")
        expect(parts(I, r) == (sch, at, sub) and I.truth(I.getattr(r, "extension")) == ext, f"name components {parts(I, r)}")
        want = (sch + ":" if sch else "") + at
        expect(I.norm(I.getattr(r, "attr_with_schema")) == want, f"qualified name {I.norm(I.getattr(r, 'attr_with_schema'))!r}")
    ctx.case(I, "construction", ctor)
