"""C04, C06, C07: attributes."""
from .common import *

A = "src.data.attributes:"


def contract_type(I, tag="t"):
    """A data type known only by its contract: accepts (with some converted value) or rejects."""
    def proc(direction):
        def f(I_, args, kw):
            v = args[0] if args else kw.get("value")
            return type_result(I_, direction, v)
        return StubM(f, direction)
    return Stub("type", get={"parse": proc("parse"), "dump": proc("dump"), "SCIM_NAME": "custom",
                             "__name__": "Custom"})


def type_result(I, direction, v):
    ok = I.truth(I.sym("accepted by " + direction, v, kinds=["bool"]))
    if not ok:
        return (I.Invalid, issues_of(I, ((), "T", True)))
    return (I.sym(direction + "d", v, kinds=["str", "int"]), AIss(I.serial))


def post(I, name):
    def f(I_, args, kw):
        return post_result(I_, name, args[0])
    cache = I.__dict__.setdefault("post_stubs", {})
    return cache.setdefault(name, StubM(f, name))


def post_result(I, name, v):
    ok = I.truth(I.sym(name + " accepts", key(I, v), kinds=["bool"]))
    iss = AIss(I.serial) if ok else issues_of(I, (("sub",), name, False))
    return (I.sym(name, key(I, v), kinds=["other", "str"]), iss)


def key(I, v):
    """A hashable stand-in for a (possibly mutable) abstract value."""
    v = I.norm(v)
    if isinstance(v, AList):
        return ("list",) + tuple("..." if isinstance(x, Rest) else key(I, x) for x in v.items)
    if isinstance(v, ACont):
        return ("cont", v.base) + tuple((k, key(I, x)) for k, x in sorted(v.sets.items(), key=repr))
    return v


def is_canonical(I, v, canon, exact):
    v = I.norm(v)
    if canon is None or same(I, v, I.Invalid):
        return True
    if isinstance(v, Sym) and "str" in I.kinds(v):
        if I.split_kind(v, ["str"], "spec: the value is a string"):
            x = v if exact else I.call(I.getattr(v, "lower"), [], {})
            return any(I.eq(x, c if exact else c.lower()) for c in canon)
    return any(I.eq(v, c) for c in canon)


def oracle(I, v, direction, multi, canon, exact, validate, posts):
    out = []
    v = I.norm(v)
    if v is None:
        return None, out
    if multi:
        if not I.truth(I.isinstance_(v, I.lookup_builtin("list"))):
            return I.Invalid, [((), 2, True)]
        items = I.items_of(v)
        res = []
        idx = 0
        for x in items:
            if isinstance(x, Rest):
                res.append(x)
                continue
            i = I.sym("idx", v, kinds=["int"]) if any(isinstance(y, Rest) for y in items) else idx
            idx += 1
            p, iss = type_result(I, direction, x)
            if iss.entries:
                out.append(((i,), "T", True))
            elif not is_canonical(I, p, canon, exact) and validate:
                out.append(((i,), 14, True))
                p = I.Invalid
            res.append(p)
        parsed = I.new_list(res)
    else:
        parsed, iss = type_result(I, direction, v)
        if iss.entries:
            out.append(((), "T", True))
        elif not is_canonical(I, parsed, canon, exact) and validate:
            out.append(((), 14, True))
            parsed = I.Invalid
    if not out:
        for p in posts:
            parsed, iss = post_result(I, p, parsed)
            if iss.entries:
                out.append((("sub",), p, False))
    return parsed, out


def c06(ctx):
    I = ctx.interp()
    C = ctx.get(I, A + "Attribute")
    ctx.rule("value absent -> untouched; otherwise every element goes through the data type of the direction, "
             "canonical values are enforced exactly when validation is on (case folded unless case exact), "
             "issues carry the element index, custom processors run in order exactly when nothing was reported")
    kinds = {"none": ["none"], "list": ["list"], "text": ["str"], "number": ["int"], "object": ["cont"]}
    for direction in ("parse", "dump"):
        for multi in (False, True):
            for canon in (None, ["One", "tWo"]):
                for exact in ((False,) if canon is None else (False, True)):
                    for validate in ((False,) if canon is None else (False, True)):
                        for kn, ks in kinds.items():
                            if not multi and kn in ("object", "number"):
                                continue
                            name = f"{direction} multi={multi} canonical={canon} exact={exact} validate={validate} value={kn}"

                            def run(I, direction=direction, multi=multi, canon=canon, exact=exact, validate=validate, ks=ks):
                                kw = dict(name="attr", type_=contract_type(I), multi_valued=multi, case_exact=exact,
                                          validate_canonical_values=validate,
                                          canonical_values=jd(I, canon) if canon is not None else None)
                                p = {"parse": ["q1", "q2"], "dump": ["d1", "d2"]}
                                kw["parsers"] = I.new_list([post(I, x) for x in p["parse"]])
                                kw["dumpers"] = I.new_list([post(I, x) for x in p["dump"]])
                                attr = I.call(C, [], kw)
                                v = I.norm(opaque(I, "value", kinds=ks, ek=["str", "int", "none"]))
                                got, iss = pair(I, meth(I, attr, direction, v))
                                want, wiss = oracle(I, v, direction, multi, canon, exact, validate, p[direction])
                                same_issues(I, iss, wiss, direction)
                                expect(deep_same(I, got, want), f"{direction} returns {got!r}, expected {want!r}")
                            ctx.case(I, name, run, max_paths=20000,
                                     shapes=("empty", "focus", "two") if canon is None or (validate and exact) else ("empty", "focus"))


# ------------------------------------------------------------------ C07
def sub_stub(I, name):
    rep = new(I, "src.data.container:AttrRep", attr=name)

    def proc(direction):
        def f(I_, args, kw):
            return sub_result(I_, name, direction, args[0] if args else kw["value"])
        return StubM(f, name + "." + direction)
    return Stub("sub-attribute " + name, get={"rep": rep, "parse": proc("parse"), "dump": proc("dump")})


def sub_result(I, name, direction, v):
    ok = I.truth(I.sym(f"{name} accepted by {direction}", key(I, v), kinds=["bool"]))
    r = I.sym(f"{name} {direction}d", key(I, v), kinds=["str", "int"])
    if ok:
        return (r, AIss(I.serial))
    return (I.Invalid, issues_of(I, (("deep",), name, True)))


def complex_oracle(I, v, direction, multi, subs, posts):
    """-> (value or None for don't care, issues)"""
    v = I.norm(v)
    out = []

    def item(c, pre):
        res = I.make_cont()
        for s in subs:
            x = I.norm(I.getitem(c, s))
            if isinstance(x, Sym):
                if I.split_kind(x, ["missing"], f"spec: {s} absent"):
                    continue
            elif same(I, x, I.Missing):
                continue
            p, iss = sub_result(I, s, direction, x)
            out.extend((pre + (s, "deep"), s, True) for _ in iss.entries)
            res.sets[("", s)] = p
        return res

    if v is None:
        return None, out
    if multi:
        if not I.truth(I.isinstance_(v, I.lookup_builtin("list"))):
            return I.Invalid, [((), 2, True)]
        items, res, idx = I.items_of(v), [], 0
        for x in items:
            if isinstance(x, Rest):
                res.append(x)
                continue
            i = I.sym("idx", v, kinds=["int"]) if any(isinstance(y, Rest) for y in items) else idx
            idx += 1
            x = I.norm(x)
            if isinstance(x, Sym) and not I.split_kind(x, ["cont"], "spec: item is an object"):
                out.append(((i,), 2, True))
                continue
            res.append(item(x if not isinstance(x, Sym) else I.as_cont(x), (i,)))
        val = I.new_list(res)
    else:
        if isinstance(v, Sym) and not I.split_kind(v, ["cont"], "spec: value is an object"):
            return I.Invalid, [((), 2, True)]
        val = item(v if not isinstance(v, Sym) else I.as_cont(v), ())
    if out:
        ran = [e[1] for e in I.R.events if e[0] == "post"]
        expect(not ran, f"custom processors {ran} run although the value was rejected")
        return "any", out
    ran = [e[1] for e in I.R.events if e[0] == "post"]
    for p in posts:
        if not I.truth(I.sym(p + " accepts", kinds=["bool"])):
            out.append((("sub",), p, False))
    expect(ran == list(posts), f"custom processors run: {ran}, expected {list(posts)}")
    return val, out


def logged_post(I, name):
    def f(I_, args, kw):
        I_.R.events.append(("post", name))
        ok = I_.truth(I_.sym(name + " accepts", kinds=["bool"]))
        return (args[0], AIss(I_.serial) if ok else issues_of(I_, (("sub",), name, False)))
    return StubM(f, name)


def c07(ctx):
    I = ctx.interp()
    C = ctx.get(I, A + "ComplexAttribute")
    At = ctx.get(I, A + "Attribute")
    ctx.rule("each present sub-attribute of each item is processed by its own definition and stored under its own name; "
             "issues are located at [index,] sub-attribute; unknown members are dropped; custom complex processors run in "
             "order exactly when nothing was reported; more than one primary item is always reported")
    for direction in ("parse", "dump"):
        for multi in (False, True):
            for kn, ks in {"none": ["none"], "list": ["list"], "object": ["cont"], "text": ["str"], "dict": ["dict"]}.items():
                def run(I, direction=direction, multi=multi, ks=ks):
                    p = {"parse": ["q1", "q2"], "dump": ["d1", "d2"]}
                    kw = dict(name="attr", sub_attributes=I.new_list([sub_stub(I, "s1"), sub_stub(I, "s2")]),
                              multi_valued=multi,
                              complex_parsers=I.new_list([logged_post(I, x) for x in p["parse"]]),
                              complex_dumpers=I.new_list([logged_post(I, x) for x in p["dump"]]))
                    attr = I.call(C, [], kw)
                    v = I.norm(opaque(I, "value", kinds=ks, ek=["str", "cont"]))
                    if isinstance(v, Sym) and ks == ["cont"]:
                        v = I.as_cont(v)
                    got, iss = pair(I, meth(I, attr, direction, v))
                    want, wiss = complex_oracle(I, v, direction, multi, ["s1", "s2"], p[direction])
                    same_issues(I, iss, wiss, direction)
                    expect((isinstance(want, str) and want == "any") or deep_same(I, got, want),
                           f"{direction} returns {got!r}, expected {want!r}")
                ctx.case(I, f"{direction} multi={multi} value={kn}", run, shapes=("empty", "focus", "two") if kn == "list" else None)

    for direction in ("parse", "dump"):
        for own in (False, True):
            for n in (0, 1, 2, 3):
                def prim(I, direction=direction, own=own, n=n):
                    T = I.lookup("src.data.type:Boolean")
                    kw = dict(name="attr", multi_valued=True, sub_attributes=I.new_list(
                        [I.call(At, [], {"name": "primary", "type_": T}), sub_stub(I, "s1")]))
                    if own:
                        keep = StubM(lambda I_, a, k: (a[0], AIss(I_.serial)), "identity")
                        kw["complex_parsers"] = I.new_list([keep])
                        kw["complex_dumpers"] = I.new_list([keep])
                    attr = I.call(C, [], kw)
                    items, cnt = [], 0
                    for i in range(n):
                        c = I.make_cont()
                        st = pick(I, f"primary of item {i}", ["true", "false", "absent"])
                        if st != "absent":
                            c.sets[("", "primary")] = st == "true"
                        cnt += st == "true"
                        items.append(c)
                    got, iss = pair(I, meth(I, attr, direction, I.new_list(items)))
                    same_issues(I, iss, [((), 9, False)] if cnt > 1 else [], f"{cnt} primary items of {n}")
                    expect(isinstance(got, AList) and len(got.items) == n and all(
                        deep_same(I, g.sets.get(("", "primary")), w.sets.get(("", "primary")))
                        for g, w in zip(got.items, items) if isinstance(g, ACont)), "items are not preserved")
                ctx.case(I, f"primary {direction} own processors={own} items={n}", prim)

    def prim_single(I):
        T = I.lookup("src.data.type:Boolean")
        attr = I.call(C, [], dict(name="attr", sub_attributes=I.new_list([I.call(At, [], {"name": "primary", "type_": T})])))
        c = I.make_cont()
        c.sets[("", "primary")] = True
        got, iss = pair(I, meth(I, attr, pick(I, "direction", ["parse", "dump"]), c))
        same_issues(I, iss, [], "single-valued attribute")
    ctx.case(I, "primary of a single-valued attribute", prim_single)

    def odd_primary(I):
        """Only the literal true counts; a rejected or null primary does not."""
        C2 = I.lookup(A + "ComplexAttribute")
        attr = I.call(C2, [], dict(name="attr", multi_valued=True, sub_attributes=I.new_list([sub_stub(I, "s1")])))
        items = []
        for i in range(2):
            c = I.make_cont()
            c.sets[("", "s1")] = opaque(I, f"v{i}", kinds=["str"])
            items.append(c)
        got, iss = pair(I, meth(I, attr, "parse", I.new_list(items)))
        es, _ = entries(I, iss)
        expect(not any(c == 9 for _, c, _ in es), "items without primary are reported as multiple primaries")
    ctx.case(I, "no primary sub-attribute", odd_primary)



# ------------------------------------------------------------------ C04
CHARS = ["type_", "description", "reference_types", "issuer", "required", "case_exact", "multi_valued",
         "canonical_values", "mutability", "returned", "uniqueness", "parsers", "dumpers"]
GETTER = {"type_": "type"}


def chars(I, complex_=False, canon="list"):
    """Arbitrary characteristics."""
    ty = I.lookup("src.data.type:String")
    kw = {
        "description": opaque(I, "description", kinds=["str"]),
        "issuer": I.sym("issuer", dom=list(enum(I, A + "AttributeIssuer").values())),
        "required": opaque(I, "required", kinds=["bool"]),
        "multi_valued": opaque(I, "multi_valued", kinds=["bool"]),
        "mutability": I.sym("mutability", dom=list(enum(I, A + "AttributeMutability").values())),
        "returned": I.sym("returned", dom=list(enum(I, A + "AttributeReturn").values())),
        "uniqueness": I.sym("uniqueness", dom=list(enum(I, A + "AttributeUniqueness").values())),
        "parsers": I.new_list([post(I, "q1")]), "dumpers": I.new_list([post(I, "d1")]),
    }
    if complex_:
        kw["complex_parsers"] = I.new_list([post(I, "q2")])
        kw["complex_dumpers"] = I.new_list([post(I, "d2")])
    else:
        kw["type_"] = ty
        kw["case_exact"] = opaque(I, "case_exact", kinds=["bool"])
        kw["canonical_values"] = {"none": None, "list": I.new_list(["tWo", "One"]), "one": I.new_list(["tWo"]), "three": I.new_list(["c", "A", "b"])}[canon]
        kw["reference_types"] = I.new_list(["User", "Group"])
    return kw


def expected_canonical(I, kw):
    c = kw.get("canonical_values")
    if c is None:
        return None
    if I.truth(kw["case_exact"]):
        return I.new_list(list(c.items))
    return I.new_list([x.lower() for x in c.items])


def compare_chars(I, attr, kw, label, subs=None):
    for k, v in kw.items():
        got = I.norm(I.getattr(attr, GETTER.get(k, k)))
        if k == "canonical_values":
            v = expected_canonical(I, kw)
        if k in ("complex_parsers", "complex_dumpers"):
            have = got.items if isinstance(got, AList) else []
            expect(all(any(x is y for y in have) for x in v.items), f"{label}: {k} lost")
            continue
        expect(deep_same(I, got, v), f"{label}: characteristic {k!r} is {got!r}, declared {v!r}")


REFTYPES = [("ExternalReference", "external"), ("URIReference", "uri")]


def c04(ctx):
    I = ctx.interp()
    At, Cx = ctx.get(I, A + "Attribute"), ctx.get(I, A + "ComplexAttribute")
    BS, RS = ctx.get(I, "src.data.schemas:BaseSchema"), ctx.get(I, "src.data.schemas:ResourceSchema")
    SE = ctx.get(I, "src.data.schemas:SchemaExtension")
    ctx.rule("every declared characteristic is readable on the attribute, survives binding to a schema or extension for "
             "attributes and sub-attributes, is what the published representation says, and takes part in equality")

    def build(I, complex_, canon="list", **over):
        kw = chars(I, complex_, canon)
        kw.update(over)
        if complex_:
            return I.call(Cx, [], {"name": "parent", **kw,
                                   "sub_attributes": I.new_list([I.call(At, [], {"name": "child", **chars(I)})])}), kw
        return I.call(At, [], {"name": "attr", **kw}), kw

    for cx in (False, True):
        for canon in ("list", "none", "one", "three") if not cx else ("list",):
            def readable(I, cx=cx, canon=canon):
                a, kw = build(I, cx, canon)
                compare_chars(I, a, kw, "attribute")
            ctx.case(I, f"readable complex={cx} canonical={canon}", readable)

    def schema_of(I, kind, attr):
        if kind == "base":
            return I.call(BS, ["urn:x:core"], {"attrs": I.new_list([attr])}), "urn:x:core"
        if kind == "resource":
            return I.call(RS, ["urn:x:core"], {"attrs": I.new_list([attr]), "name": "Thing"}), "urn:x:core"
        s = I.call(RS, ["urn:x:core"], {"attrs": I.new_list([]), "name": "Thing"})
        meth(I, s, "with_extension", I.call(SE, ["urn:x:ext"], {"attrs": I.new_list([attr]), "name": "Ext"}))
        return s, "urn:x:ext"

    Rep = ctx.get(I, "src.data.container:AttrRep")
    for kind in ("base", "resource", "extension"):
        for cx in (False, True):
            def bound(I, kind=kind, cx=cx):
                tn = pick(I, "type", ["String", "SCIMReference", "Integer", "Binary", "DateTime", "Boolean"] if not cx else ["String"])
                a, kw = build(I, cx, pick(I, "canonical values", ["list", "none", "one"] if not cx else ["list"]) if tn == "String" else "none",
                              **({} if tn == "String" else {"type_": I.lookup("src.data.type:" + tn)}))
                s, urn = schema_of(I, kind, a)
                nm = "parent" if cx else "attr"
                rep = I.call(Rep, [], {"schema": urn, "attr": nm})
                b = I.norm(meth(I, I.getattr(s, "attrs"), "get", rep))
                expect(isinstance(b, AObj), f"attribute is not registered in the {kind} schema")
                compare_chars(I, b, kw, f"attribute bound to the {kind} schema")
                r = I.getattr(b, "rep")
                expect(I.norm(I.getattr(r, "schema")) == urn, "bound attribute carries the wrong schema")
                expect(I.truth(I.getattr(r, "extension")) == (kind == "extension"), "extension flag of the bound attribute is wrong")
                if cx:
                    c = I.norm(meth(I, I.getattr(s, "attrs"), "get", I.call(
                        Rep, [], {"schema": urn, "attr": nm, "sub_attr": "child"})))
                    expect(isinstance(c, AObj), "sub-attribute is not registered in the schema")
                    compare_chars(I, c, chars(I), f"sub-attribute bound to the {kind} schema")
                    expect(I.truth(I.getattr(I.getattr(c, "rep"), "extension")) == (kind == "extension"),
                           "extension flag of the bound sub-attribute is wrong")
                    subs = [I.norm(x) for x in I.items_of(I.getattr(b, "attrs"))]
                    expect(len(subs) == 1, f"bound complex attribute has {len(subs)} sub-attributes instead of 1")
                    compare_chars(I, subs[0], chars(I), f"sub-attribute of the attribute bound to the {kind} schema")
            ctx.case(I, f"binding {kind} complex={cx}", bound)

        for validate in (False, True):
            for sub in (False, True):
                def enforced(I, kind=kind, validate=validate, sub=sub):
                    multi = pick(I, "multi-valued", [False, True])
                    a = I.call(At, [], {"name": "attr", "type_": I.lookup("src.data.type:String"), "multi_valued": multi,
                                        "canonical_values": I.new_list(["one"]), "validate_canonical_values": validate})
                    if sub:
                        a = I.call(Cx, [], {"name": "parent", "sub_attributes": I.new_list([a])})
                    s, urn = schema_of(I, kind, a)
                    b = meth(I, I.getattr(s, "attrs"), "get", I.call(
                        Rep, [], {"schema": urn, "attr": "parent" if sub else "attr", "sub_attr": "attr" if sub else ""}))
                    v = opaque(I, "value", kinds=["str"])
                    d = pick(I, "direction", ["parse", "dump"])
                    out, iss = pair(I, meth(I, b, d, I.new_list([v]) if multi else v))
                    ok = not validate or I.eq(I.call(I.getattr(v, "lower"), [], {}), "one")
                    es, _ = entries(I, iss)
                    expect(ok == (not es), f"{d} of a value outside the canonical values by the attribute bound to the {kind} schema: "
                                           f"validation declared {validate}, issues {es}")
                ctx.case(I, f"canonical validation survives binding {kind} validate={validate} sub={sub}", enforced)

    def reftypes(I):
        t, want = pick(I, "type", REFTYPES)
        ty = I.lookup("src.data.type:" + t)
        given = pick(I, "reference types", [None, [], ["external"], ["uri"], ["User"]])
        kw = {} if given is None else {"reference_types": jd(I, given)}
        good = given in (None, [], [want])
        try:
            a = I.call(At, [], {"name": "a", "type_": ty, **kw})
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError" and not good, f"{t} with reference types {given} is refused")
            return
        expect(good, f"{t} accepts the reference types {given}")
        got = I.norm(I.getattr(a, "reference_types"))
        expect(isinstance(got, AList) and [I.norm(x) for x in got.items] == [want], f"{t} has reference types {got}, expected [{want!r}]")
    ctx.case(I, "reference types", reftypes)

    # ---- published representation
    WANT = {"name": None, "type": None, "multiValued": "multi_valued", "description": "description", "required": "required",
            "caseExact": "case_exact", "mutability": "mutability", "returned": "returned", "uniqueness": "uniqueness"}

    def check_rep(I, d, kw, name, label, typ):
        expect(isinstance(d, ADict) and d.open is None, f"{label}: representation is not a determined object")
        have = {I.norm(k): I.norm(v) for k, v in d.items.values()}
        for k, src in WANT.items():
            expect(k in have, f"{label}: representation lacks {k!r}")
            if k == "name":
                w = name
            elif k == "type":
                w = typ
            elif k == "caseExact" and src not in kw:
                continue
            else:
                w = I.norm(kw[src])
                if k in ("mutability", "returned", "uniqueness"):
                    w = I.norm(I.getattr(I.force(w), "value"))
            expect(deep_same(I, have[k], w), f"{label}: {k!r} is published as {have[k]!r}, declared {w!r}")
        c = expected_canonical(I, kw) if "canonical_values" in kw else None
        expect((c is not None) == ("canonicalValues" in have), f"{label}: canonicalValues published: {'canonicalValues' in have}")
        if c is not None:
            expect(deep_same(I, have["canonicalValues"], c), f"{label}: canonicalValues published as {have['canonicalValues']!r}")
        rt = kw.get("reference_types")
        expect((rt is not None) == ("referenceTypes" in have), f"{label}: referenceTypes published: {'referenceTypes' in have}")
        if rt is not None:
            expect(deep_same(I, have["referenceTypes"], rt), f"{label}: referenceTypes published as {have['referenceTypes']!r}")
        return have

    def rep_simple(I):
        canon = pick(I, "canonical", ["list", "none", "one", "three"])
        a, kw = build(I, False, canon)
        have = check_rep(I, I.norm(meth(I, a, "to_dict")), kw, "attr", "attribute", "string")
        expect("subAttributes" not in have, "simple attribute is published with sub-attributes")
    ctx.case(I, "representation of an attribute", rep_simple, max_paths=20000)

    def rep_complex(I):
        a, kw = build(I, True)
        have = check_rep(I, I.norm(meth(I, a, "to_dict")), kw, "parent", "complex attribute", "complex")
        subs = I.norm(have.get("subAttributes"))
        expect(isinstance(subs, AList) and len(subs.items) == 1, f"subAttributes published as {subs!r}")
        check_rep(I, I.norm(subs.items[0]), chars(I), "child", "sub-attribute", "string")
    ctx.case(I, "representation of a complex attribute", rep_complex, max_paths=20000)

    G = ctx.get(I, "src.data.schemas:get_schema_rep")

    def rep_schema(I):
        n, d = opaque(I, "schema name", kinds=["str"]), opaque(I, "schema description", kinds=["str"])
        a = I.call(Cx, [], {"name": "parent", "sub_attributes": I.new_list([I.call(At, [], {
            "name": "child", "type_": I.lookup("src.data.type:String")})])})
        s = I.call(RS, ["urn:x:core"], {"attrs": I.new_list([a]), "name": n, "description": d})
        r = I.norm(I.call(G, [s], {}))
        have = {I.norm(k): I.norm(v) for k, v in r.items.values()}
        expect(same(I, have.get("id"), "urn:x:core"), f"schema id published as {have.get('id')!r}")
        expect(same(I, have.get("name"), n), "schema name is not published as declared")
        expect(same(I, have.get("description"), d), "schema description is not published as declared")
        at = have.get("attributes")
        expect(isinstance(at, AList), "schema attributes are not published as a list")
        names = []
        for x in at.items:
            x = I.norm(x)
            nm = [I.norm(v) for k, v in x.items.values() if I.norm(k) == "name"]
            names += nm
        expect(sorted(names) == sorted(["schemas", "id", "externalId", "meta", "parent"]),
               f"schema representation lists {names}")
    ctx.case(I, "representation of a schema", rep_schema, max_paths=20000)

    WORDS = {"AttributeMutability": {"READ_WRITE": "readWrite", "READ_ONLY": "readOnly", "WRITE_ONLY": "writeOnly", "IMMUTABLE": "immutable"},
             "AttributeReturn": {"DEFAULT": "default", "ALWAYS": "always", "NEVER": "never", "REQUEST": "request"},
             "AttributeUniqueness": {"NONE": "none", "SERVER": "server", "GLOBAL": "global"}}

    def words(I):
        """the published words are the standard's"""
        kw, field = pick(I, "characteristic", [("mutability", "AttributeMutability"), ("returned", "AttributeReturn"), ("uniqueness", "AttributeUniqueness")])
        n = pick(I, "value", WORDS[field])
        a = I.call(At, [], {"name": "x", "type_": I.lookup("src.data.type:String"), kw: I.getattr(ctx.get(I, A + field), n)})
        r = I.norm(meth(I, a, "to_dict"))
        have = {I.norm(k): I.norm(v) for k, v in r.items.values()}
        v = have.get(kw)
        w = I.norm(I.getattr(v, "value")) if isinstance(v, AObj) else v
        expect(w == WORDS[field][n], f"{kw} {n} is published as {w!r}, should be {WORDS[field][n]!r}")
    ctx.case(I, "words of the characteristics", words)

    def extension(I):
        n, d = opaque(I, "extension name", kinds=["str"]), opaque(I, "extension description", kinds=["str"])
        e = I.call(ctx.get(I, "src.data.schemas:SchemaExtension"), ["urn:x:ext"], {"name": n, "description": d, "attrs": I.new_list([I.call(At, [], {"name": "x", "type_": I.lookup("src.data.type:String")})])})
        expect(same(I, I.getattr(e, "name"), n) and same(I, I.getattr(e, "description"), d) and same(I, I.getattr(e, "schema"), "urn:x:ext"), "an extension does not have the name, description or URN it was given")
        have = {I.norm(k): I.norm(v) for k, v in I.norm(meth(I, e, "to_dict")).items.values()}
        expect(same(I, have.get("id"), "urn:x:ext") and same(I, have.get("name"), n) and same(I, have.get("description"), d), "an extension is not published with its URN, name and description")
    ctx.case(I, "extensions", extension)

    def overrides(I):
        """a schema may declare the common attributes anew"""
        w = pick(I, "attribute", ["id", "externalId", "meta"])
        kw = {"name": w, "description": opaque(I, "new description", kinds=["str"])}
        new_ = I.call(Cx, [], {**kw, "sub_attributes": I.new_list([I.call(At, [], {"name": "resourceType", "type_": I.lookup("src.data.type:String")})])}) if w == "meta" else \
            I.call(At, [], {**kw, "type_": I.lookup("src.data.type:String"), "required": True, "case_exact": False})
        s = I.call(RS, ["urn:x:core"], {"attrs": I.new_list([]), "name": "N", "attr_overrides": I.new_dict([(w, new_)])})
        for n in ("id", "externalId", "meta"):
            g = I.getattr(I.getattr(s, "attrs"), n.lower())
            expect(same(I, I.getattr(g, "description"), kw["description"]) == (n == w), f"with {w} declared anew, {n} is {'not ' if n == w else ''}the new one")
    ctx.case(I, "common attributes declared anew", overrides)

    # ---- equality
    def variants(I):
        e = lambda n: list(enum(I, A + n).values())
        return {
            "type_": [I.lookup("src.data.type:String"), I.lookup("src.data.type:Integer")],
            "reference_types": [I.new_list(["User"]), I.new_list(["Group"]), I.new_list(["User", "Group"])],
            "required": [True, False], "case_exact": [True, False], "multi_valued": [True, False],
            "canonical_values": [I.new_list(["a"]), I.new_list(["b"]), I.new_list(["a", "b"]), None],
            "validate_canonical_values": [True, False],
            "mutability": e("AttributeMutability"), "returned": e("AttributeReturn"),
            "uniqueness": e("AttributeUniqueness"), "name": ["one", "two"],
        }

    for k in ("name", "type_", "reference_types", "required", "case_exact", "multi_valued", "canonical_values",
              "validate_canonical_values", "mutability", "returned", "uniqueness"):
        def equality(I, k=k):
            vs = variants(I)
            base = {n: v[0] for n, v in vs.items()}
            j = pick(I, "variant", range(len(vs[k])))
            a = I.call(At, [], dict(base))
            b = I.call(At, [], {**base, k: vs[k][j]})
            r = I.eq(a, b)
            expect(r == (j == 0), f"attributes {'with equal characteristics differ' if j == 0 else f'differing in {k!r} are equal'}")
        ctx.case(I, f"equality {k}", equality)

    def eq_other(I):
        a, _ = build(I, False)
        expect(not I.eq(a, 1) and not I.eq(a, "attr"), "attribute equals a value of another type")
    ctx.case(I, "equality with other types", eq_other)
