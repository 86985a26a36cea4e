"""C09: which attributes must, may and must not be present, in requests and responses."""
from .common import *

A = "src.data.attributes:"
CORE, EXT = "urn:x:Core", "urn:x:Ext"
ABSENT = ("absent", "none", "empty text", "empty list")


def rep_eq(a, b):
    return top_eq(a, b) and a[2].lower() == b[2].lower()


def top_eq(a, b):
    return (not a[0] or not b[0] or a[0].lower() == b[0].lower()) and a[1].lower() == b[1].lower()


def decision(I, rep, attr, present, direction, listed, include, ignored, enums):
    """Code reported about one attribute (or None)."""
    returned = lambda n: I.eq(I.getattr(attr, "returned"), enums[n])
    named = any(rep_eq(rep, x) for x in listed)
    if present:
        if direction == "REQUEST":
            return None
        if returned("NEVER"):
            return (19, False)
        if returned("ALWAYS"):
            return None
        if include is False and named:
            return (19, False)
        if include is True and not named:
            related = any(top_eq(rep, x) and (not rep[2] or not x[2]) for x in listed)
            if not related:
                return (19, False)
        return None
    if not I.truth(I.getattr(attr, "required")) or any(rep_eq(rep, x) for x in ignored):
        return None
    if include is not True or named or (direction == "RESPONSE" and returned("ALWAYS")):
        return (15, True)
    return None


def c09(ctx):
    I = ctx.interp(native_cont=False)
    At, Cx = ctx.get(I, A + "Attribute"), ctx.get(I, A + "ComplexAttribute")
    BS, RS = ctx.get(I, "src.data.schemas:BaseSchema"), ctx.get(I, "src.data.schemas:ResourceSchema")
    SE = ctx.get(I, "src.data.schemas:SchemaExtension")
    SC, Rep = ctx.get(I, "src.data.container:SCIMDataContainer"), ctx.get(I, "src.data.container:AttrRep")
    Chk = ctx.get(I, "src.attributes_presence:AttributePresenceChecker")
    String = ctx.get(I, "src.data.type:String")
    RET = enum(I, A + "AttributeReturn")
    ctx.rule("present in a response: 'never' is always reported; unless 'always', reported when excluded, or when attributes are "
             "requested and neither it nor its parent nor one of its sub-attributes is; absent and required: reported (blocking) "
             "unless exempted or not requested; a request never reports a present attribute; anything else is not reported")

    quick = ctx.tier == "quick"

    def chars(I, tag):
        return {"required": opaque(I, tag + " required", kinds=["bool"]),
                "returned": I.sym("opaque", tag + " returned", kinds=["other"], dom=[RET[k] for k in ("DEFAULT", "ALWAYS", "NEVER", "REQUEST")])}

    def rep(I, r):
        return I.call(Rep, [], {"schema": r[0], "attr": r[1], "sub_attr": r[2]})

    VALS = {"none": lambda I: None, "empty text": lambda I: "", "empty list": lambda I: I.new_list([]), "text": lambda I: "x",
            "false": lambda I: False, "zero": lambda I: 0, "list": lambda I: I.new_list(["x"]), "object": lambda I: I.new_dict([("q", 1)]),
            "invalid": lambda I: I.Invalid}

    def checker(I, listed, include, ignored):
        kw = {}
        if listed or include is not None:
            kw = {"attr_reps": I.new_list([rep(I, x) for x in listed]), "include": include}
        if ignored:
            kw["ignore_required"] = I.new_list([rep(I, x) for x in ignored])
        return I.call(Chk, [], kw)

    def judge(I, c, data, attrs, direction, model, listed, include, ignored, what):
        """model: {(schema, attr, sub): [(location, state)]} for every attribute"""
        iss = I.call(c, [], {"data": data, "attrs": attrs, "direction": direction})
        seen, want = [], []
        for a in I.items_of(attrs):
            r = I.getattr(a, "rep")
            k = tuple(I.norm(I.getattr(r, n)) for n in ("schema", "attr", "sub_attr"))
            seen.append(k)
            for loc, present in model.get(k, []):
                d = decision(I, k, a, present, direction, listed, include, ignored, RET)
                if d:
                    want.append((loc, *d))
        expect(sorted(seen) == sorted(model), f"attributes {sorted(seen)} instead of {sorted(model)}")
        same_issues(I, iss, want, what)

    def top_schema(I, ext):
        a = I.call(At, [], {"name": "alpha", "type_": String, **chars(I, "alpha")})
        if not ext:
            s = I.call(BS, [CORE], {"attrs": I.new_list([a])})
            return s, {(CORE, "schemas", ""): [(("schemas",), True)]}
        s = I.call(RS, [CORE], {"attrs": I.new_list([I.call(At, [], {"name": "alpha", "type_": String})]), "name": "T"})
        meth(I, s, "with_extension", I.call(SE, [EXT], {"attrs": I.new_list([a])}))
        m = {(CORE, n, ""): [((n,), True)] for n in ("schemas", "id")}
        m.update({(CORE, n, ""): [((n,), False)] for n in ("externalId", "alpha", "meta")})
        for n in ("resourceType", "created", "lastModified", "location", "version"):
            m[(CORE, "meta", n)] = [(("meta", n), False)]
        return s, m

    TOPLIST = {"nothing": [], "itself": [("", "alpha", "")], "itself, other case": [("", "ALPHA", "")],
               "itself, qualified": [("SCH", "alpha", "")], "its sub-attribute": [("", "alpha", "x")],
               "another": [("", "beta", "")], "same name elsewhere": [("urn:y:other", "alpha", "")],
               "another and itself": [("", "beta", ""), ("", "alpha", "")]}

    for ext in (False, True):
        made = ctx.setup(I, lambda I: top_schema(I, ext))
        for direction in ("REQUEST", "RESPONSE"):
            def top(I, ext=ext, direction=direction, made=made):
                s, m = made[0], dict(made[1])
                v = pick(I, "value", ["absent", "empty list", "text", "invalid"] if ext and quick else ["absent", *VALS])
                sch = EXT if ext else CORE
                l = pick(I, "listed", TOPLIST)
                listed = [(sch if x[0] == "SCH" else x[0], x[1], x[2]) for x in TOPLIST[l]]
                include = pick(I, "include", [None, True, False])
                ignored = pick(I, "exempted", ["nothing", "itself", "another"] if v in ABSENT or not quick else ["nothing"])
                ignored = {"nothing": [], "itself": [("", "Alpha", "")], "another": [("", "beta", "")]}[ignored]
                d = [("schemas", I.new_list([CORE])), ("id", "1")]
                if v != "absent":
                    d.append((EXT, I.new_dict([("alpha", VALS[v](I))])) if ext else ("alpha", VALS[v](I)))
                loc = (EXT, "alpha") if ext else ("alpha",)
                m[(sch, "alpha", "")] = [] if v == "invalid" else [(loc, v not in ABSENT)]
                judge(I, checker(I, listed, include, ignored), I.call(SC, [I.new_dict(d)], {}), I.getattr(s, "attrs"), direction, m,
                      listed, include, ignored, f"{direction}: alpha is {v}, listed {listed}, include={include}, exempted {ignored}")
            ctx.case(I, f"{'extension' if ext else 'core'} attribute, {direction}", top, max_paths=60000)

    # ---------------------------------------------------------------- sub-attributes
    SUBLIST = {"nothing": [], "parent": [("", "alpha", "")], "itself": [("", "alpha", "x")], "itself, other case": [("SCH", "Alpha", "X")],
               "sibling": [("", "alpha", "y")], "another": [("", "beta", "")], "parent elsewhere": [("urn:y:other", "alpha", "")]}

    def sub_schema(I, ext, multi, parent_chars):
        subs = I.new_list([I.call(At, [], {"name": "x", "type_": String, **chars(I, "x")}),
                           I.call(At, [], {"name": "y", "type_": String})])
        a = I.call(Cx, [], {"name": "alpha", "sub_attributes": subs, "multi_valued": multi, **parent_chars})
        if not ext:
            s = I.call(BS, [CORE], {"attrs": I.new_list([a])})
            return s, {(CORE, "schemas", ""): [(("schemas",), True)]}
        s = I.call(RS, [CORE], {"attrs": I.new_list([I.call(At, [], {"name": "alpha", "type_": String, "multi_valued": not multi})]), "name": "T"})
        meth(I, s, "with_extension", I.call(SE, [EXT], {"attrs": I.new_list([a])}))
        m = {(CORE, n, ""): [((n,), True)] for n in ("schemas", "id")}
        m.update({(CORE, n, ""): [((n,), False)] for n in ("externalId", "meta", "alpha")})
        for n in ("resourceType", "created", "lastModified", "location", "version"):
            m[(CORE, "meta", n)] = [(("meta", n), False)]
        return s, m

    STATES = {
        False: {"no parent": None, "empty parent": {}, "absent": {"y": 1}, "null": {"x": None, "y": 1}, "empty": {"x": ""},
                "present": {"X": "v"}, "false": {"x": False, "y": 1}, "invalid": {"x": "INVALID"}},
        True: {"no parent": None, "null parent": "NULL", "no items": [], "absent": [{"y": 1}], "present": [{"X": "v"}],
               "absent and present": [{"y": 1}, {"x": 0}], "two absent": [{}, {"x": []}], "invalid item": ["INVALID", {"y": 1}],
               "invalid value": [{"x": "INVALID"}, {"x": None}], "present and absent": [{"x": 1}, {}]},
    }

    def lit(I, x):
        if x == "INVALID":
            return I.Invalid
        if x == "NULL":
            return None
        if isinstance(x, dict):
            return I.new_dict([(k, lit(I, v)) for k, v in x.items()])
        if isinstance(x, list):
            return I.new_list([lit(I, v) for v in x])
        return x

    FEW = ("no parent", "absent", "present", "absent and present", "invalid")
    empty = lambda v: v is None or v == "" and isinstance(v, str) or v == [] or v == "NULL"

    for ext in (False, True):
        for multi in (False, True):
            absent = ctx.setup(I, lambda I: sub_schema(I, ext, multi, {"required": opaque(I, "parent required", kinds=["bool"])}))
            there = ctx.setup(I, lambda I: sub_schema(I, ext, multi, {"returned": chars(I, "parent")["returned"]}))
            for direction in ("REQUEST", "RESPONSE"):
                def sub(I, ext=ext, multi=multi, direction=direction, absent=absent, there=there):
                    st = pick(I, "value", [x for x in STATES[multi] if not (ext and quick) or x in FEW])
                    val = STATES[multi][st]
                    s, m = absent if st in ("no parent", "null parent", "no items") else there
                    m = dict(m)
                    sch = EXT if ext else CORE
                    pre = (EXT,) if ext else ()
                    l = pick(I, "listed", SUBLIST)
                    listed = [(sch if x[0] == "SCH" else x[0], x[1], x[2]) for x in SUBLIST[l]]
                    include = pick(I, "include", [None, True, False])
                    ignored = pick(I, "exempted", ["nothing", "itself", "parent"] if "present" != st or not quick else ["nothing"])
                    ignored = {"nothing": [], "itself": [("", "Alpha", "x")], "parent": [("", "alpha", "")]}[ignored]
                    d = [("schemas", I.new_list([CORE])), ("id", "1")]
                    if val is not None:
                        av = ("alpha", lit(I, val))
                        d.append((EXT, I.new_dict([av])) if ext else av)
                    m[(sch, "alpha", "")] = [(pre + ("alpha",), val is not None and not empty(val))]
                    for n in ("x", "y"):
                        if not multi:
                            x = {k.lower(): q for k, q in (val or {}).items()}.get(n)
                            m[(sch, "alpha", n)] = [] if x == "INVALID" else [(pre + ("alpha", n), not empty(x))]
                        elif val is None:
                            m[(sch, "alpha", n)] = []
                        elif val == "NULL":
                            m[(sch, "alpha", n)] = [(pre + ("alpha", n), False)]
                        else:
                            m[(sch, "alpha", n)] = []
                            for i, it in enumerate(val):
                                if it != "INVALID":
                                    x = {k.lower(): q for k, q in it.items()}.get(n)
                                    if x != "INVALID":
                                        m[(sch, "alpha", n)].append((pre + ("alpha", i, n), not empty(x)))
                    judge(I, checker(I, listed, include, ignored), I.call(SC, [I.new_dict(d)], {}), I.getattr(s, "attrs"), direction, m,
                          listed, include, ignored, f"{direction}: alpha is {st}, listed {listed}, include={include}, exempted {ignored}")
                ctx.case(I, f"{'extension' if ext else 'core'} {'multi-valued' if multi else 'single'} complex attribute, {direction}",
                         sub, max_paths=60000)

    # ---------------------------------------------------------------- reading the names
    def names(I):
        n = pick(I, "number of names", [0, 1, 2])
        G = {"a": ("", "a", ""), "A.x": ("", "A", "x"), "urn:x:a.y": ("urn:x", "a", "y"), "$ref": ("", "$ref", "")}
        B = ["a b", "", "a.b.c", "a["]
        lst = [pick(I, f"name {i}", list(G) + B) for i in range(n)]
        include = pick(I, "include", [None, True, False])
        r, iss = pair(I, meth(I, Chk, "parse", I.new_list(lst), include))
        bad = [x for x in lst if x in B]
        same_issues(I, iss, [((x,), 111, True) for x in bad], f"reading names {lst}")
        if bad:
            expect(same(I, r, I.Invalid), f"names {lst} give a checker")
            return
        expect(isinstance(r, AObj) and not same(I, r, I.Invalid), f"names {lst} give no checker")
        got = [tuple(I.norm(I.getattr(x, p)) for p in ("schema", "attr", "sub_attr")) for x in I.items_of(I.getattr(r, "attr_reps"))]
        expect(got == [G[x] for x in lst], f"names {lst} are read as {got}")
        expect(same(I, I.getattr(r, "include"), include), f"include={include} becomes {I.norm(I.getattr(r, 'include'))}")
    ctx.case(I, "reading attribute names", names, max_paths=5000)
