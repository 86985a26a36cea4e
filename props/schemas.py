"""C08: schemas process exactly their attributes; the schemas field."""
from .common import *

A = "src.data.attributes:"
CORE, EXT = "urn:x:Core", "urn:x:Ext"


def ctype(I, tag):
    """A data type known by its contract; records the direction it is used in."""
    def proc(direction):
        def f(I_, args, kw):
            v = args[0] if args else kw.get("value")
            I_.R.events.append(("typed", tag, direction, I_.norm(v)))
            return tres(I_, tag, direction, v)
        return StubM(f, tag + "." + direction)
    cache = I.__dict__.setdefault("ctypes", {})
    if tag not in cache:
        cache[tag] = Stub("type " + tag, get={"parse": proc("parse"), "dump": proc("dump"), "SCIM_NAME": "custom",
                                              "__name__": "Custom"})
    return cache[tag]


def tres(I, tag, direction, v):
    mode = I.choose(f"{tag}.{direction} of the value", ["accepts", "rejects", "remarks"]) \
        if (tag, direction) not in I.R.labels else I.R.labels[(tag, direction)]
    I.R.labels[(tag, direction)] = mode
    if mode == "rejects":
        return (I.Invalid, issues_of(I, (("deep",), tag, True)))
    r = I.sym(tag + " " + direction + "d", v, kinds=["str", "int"])
    return (r, AIss(I.serial) if mode == "accepts" else issues_of(I, (("deep",), tag, False)))


def plain(I, v):
    """Container or dict -> {lower-case key: value} (nested), without the representation."""
    v = I.norm(v)
    if isinstance(v, ACont):
        return {k[1]: plain(I, x) for k, x in v.sets.items()}
    if isinstance(v, AObj) and v.cls.name == "SCIMDataContainer":
        d = I.norm(meth(I, v, "to_dict"))
        return plain(I, d)
    if isinstance(v, ADict):
        if v.open is not None:
            raise SpecFail("result is not determined by the input")
        return {str(I.norm(k)).lower(): plain(I, x) for k, x in v.items.values()}
    if isinstance(v, AList):
        return [plain(I, x) for x in v.items]
    return v


def plain_same(I, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(plain_same(I, a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(plain_same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    return deep_same(I, a, b)


def c08(ctx):
    I = ctx.interp(native_cont=False)
    At = ctx.get(I, A + "Attribute")
    BS, RS = ctx.get(I, "src.data.schemas:BaseSchema"), ctx.get(I, "src.data.schemas:ResourceSchema")
    SE = ctx.get(I, "src.data.schemas:SchemaExtension")
    V = ctx.get(I, "src.data.schemas:validate_schemas_field")
    SC = ctx.get(I, "src.data.container:SCIMDataContainer")
    ctx.rule("absent data -> missing; data that is not an object -> type finding; otherwise exactly the schema's attributes are "
             "processed, in the direction asked for, each from its own namespace, and findings are located under its name "
             "(extension URN first)")
    ctx.rule("schemas field: main schema present, only known schemas, every extension in use listed; case ignored")

    def schema(I, kind):
        a = I.call(At, [], {"name": "alpha", "type_": ctype(I, "alpha")})
        b = I.call(At, [], {"name": "beta", "type_": ctype(I, "beta")})
        if kind == "base":
            return I.call(BS, [CORE], {"attrs": I.new_list([a, b])})
        s = I.call(RS, [CORE], {"attrs": I.new_list([a, b]), "name": "Thing"})
        if kind == "extended":
            e = I.call(At, [], {"name": "alpha", "type_": ctype(I, "ext alpha")})
            g = I.call(At, [], {"name": "gamma", "type_": ctype(I, "gamma")})
            meth(I, s, "with_extension", I.call(SE, [EXT], {"attrs": I.new_list([e, g]), "name": "Ext"}))
        return s

    for kind in ("base", "resource", "extended"):
        for direction in ("parse", "dump"):
            def bad(I, kind=kind, direction=direction):
                s = schema(I, kind)
                v = I.norm(opaque(I, "data", kinds=["none", "str", "int", "bool", "list", "float", "invalid", "missing"], ek=["str"]))
                r, iss = pair(I, meth(I, s, direction, v))
                k = kind_of(I, v)
                same_issues(I, iss, [((), 15 if k == "none" else 2, True)], f"{direction} of {k} data")
                expect(same(I, r, I.Invalid), f"{direction} of {k} data returns {r!r} instead of the invalid marker")
            ctx.case(I, f"{kind} {direction} of something that is not an object", bad)

            for keys in (("alpha", "beta"), ("ALPHA", "Beta"), ("alpha",), ("beta",), ()):
                for ek in ((None, "own", "other case", "one") if kind == "extended" else (None,)):
                    for wrap in ((False, True) if keys == ("ALPHA", "Beta") else (False,)):
                        def good(I, kind=kind, direction=direction, keys=keys, ek=ek, wrap=wrap):
                            s = schema(I, kind)
                            vals, want, wiss = {}, {}, []
                            d = [("zulu", opaque(I, "junk", kinds=["str"]))]
                            for k in keys:
                                vals[k.lower()] = opaque(I, k.lower(), kinds=["str", "int"])
                                d.append((k, vals[k.lower()]))
                            ev = {}
                            if ek:
                                ev = {"gamma": opaque(I, "gamma", kinds=["str"])}
                                if ek != "one":
                                    ev["alpha"] = opaque(I, "ext alpha", kinds=["str"])
                                d.append((EXT if ek != "other case" else EXT.upper(), I.new_dict(
                                    [((k.upper() if ek == "other case" else k), x) for k, x in ev.items()] + [("other", "x")])))
                            data = I.new_dict(d)
                            if wrap:
                                data = I.call(SC, [data], {})
                            r, iss = pair(I, meth(I, s, direction, data))
                            n = [(e[1], e[2]) for e in I.R.events if e[0] == "typed"]
                            exp = [(k, direction) for k in vals] + [("ext alpha" if k == "alpha" else k, direction) for k in ev]
                            expect(sorted(n) == sorted(exp), f"{direction} hands values to {sorted(n)}, the data holds {sorted(exp)}")
                            for k, v in vals.items():
                                p, i2 = tres(I, k, direction, v)
                                want[k] = p
                                wiss += [((k, "deep"), e.code, e.stop) for e in i2.entries]
                            for k, v in ev.items():
                                t = "ext alpha" if k == "alpha" else k
                                p, i2 = tres(I, t, direction, v)
                                want.setdefault(EXT.lower(), {})[k] = p
                                wiss += [((EXT, k, "deep"), e.code, e.stop) for e in i2.entries]
                            same_issues(I, iss, wiss, f"{direction} of an object with {list(keys)} and extension {sorted(ev)}")
                            got = plain(I, r)
                            expect(plain_same(I, got, want), f"{direction} returns {got}, expected {want}")
                        ctx.case(I, f"{kind} {direction} of {list(keys)} extension={ek} container={wrap}", good, max_paths=8000)

            def nulls(I, kind=kind, direction=direction):
                """an attribute that is null is processed as null, wherever it is"""
                s = schema(I, kind)
                what = {"alpha": I.norm(pick(I, "alpha", ["null", "absent"])), "beta": pick(I, "beta", ["null", "absent"])}
                ext = {"alpha": pick(I, "extension alpha", ["null", "absent"]), "gamma": pick(I, "gamma", ["null", "absent"])} if kind == "extended" else {}
                names = lambda m: [k for k, x in m.items() if x == "null"]
                d = [(k, None) for k in names(what)]
                if ext:
                    d.append((EXT, I.new_dict([(k, None) for k in names(ext)])))
                r, iss = pair(I, meth(I, s, direction, I.new_dict(d)))
                same_issues(I, iss, [], f"{direction} of null attributes")
                want = {k: None for k in names(what)}
                if names(ext):
                    want[EXT.lower()] = {k: None for k in names(ext)}
                got = {k: x for k, x in plain(I, r).items() if x != {}}
                expect(got == want, f"{direction} of null attributes {names(what)}, in the extension {names(ext)} returns {got}")
            ctx.case(I, f"{kind} {direction} of null attributes", nulls)

            def namespace(I, kind=kind, direction=direction):
                """the value of an extension (or of the schema's own URN) is not an object"""
                s = schema(I, kind)
                urn = pick(I, "namespace", [CORE] + ([EXT] if kind == "extended" else []))
                v = I.norm(opaque(I, "namespace value", kinds=["none", "str", "int", "bool", "list"], ek=["str"]))
                r, iss = pair(I, meth(I, s, direction, I.new_dict([(pick(I, "case", [urn, urn.upper()]), v)])))
                same_issues(I, iss, [] if I.norm(v) is None else [((urn,), 2, True)], f"{direction} with {kind_of(I, v)} as value of {urn}")
                expect(plain(I, r) == {}, f"{direction} returns {plain(I, r)}")
            ctx.case(I, f"{kind} {direction} with a namespace that is not an object", namespace)

    # -------- schemas field
    DOM = {"main": CORE, "main, other case": CORE.upper(), "extension": EXT, "extension, other case": EXT.lower(),
           "unknown": "urn:x:other", "longer": CORE + ":", "shorter": CORE[:-1], "not text": 5}

    def field_spec(lst, used):
        low = [x.lower() for x in lst if isinstance(x, str)]
        out = []
        if CORE.lower() not in low:
            out.append((("schemas",), 28, False))
        if any(x not in (CORE.lower(), EXT.lower()) for x in low):
            out.append((("schemas",), 27, False))
        if used and EXT.lower() not in low:
            out.append((("schemas",), 29, False))
        return out

    for n in range(0, 4 if ctx.tier == "thorough" else 3):
        def direct(I, n=n):
            names = [pick(I, f"schemas[{i}]", DOM) for i in range(n)]
            lst = [DOM[x] for x in names]
            used = pick(I, "extension data", [None, EXT, EXT.upper()])
            d = [("alpha", 1)]
            if used:
                d.append((used, I.new_dict([("gamma", 1)] if pick(I, "extension object", ["filled", "empty"]) == "filled" else [])))
            known = pick(I, "known", [[CORE, EXT], [CORE.upper(), EXT.lower()]])
            iss = I.call(V, [], {"data": I.call(SC, [I.new_dict(d)], {}), "schemas_": I.new_list(lst), "main_schema": known[0],
                                 "known_schemas": I.new_list(known)})
            same_issues(I, iss, field_spec(lst, used), f"schemas field {lst} with extension data {used}")
        ctx.case(I, f"schemas field of {n} items", direct, max_paths=20000)

    for kind in ("base", "resource", "extended"):
        for direction in ("parse", "dump"):
            def through(I, kind=kind, direction=direction):
                s = schema(I, kind)
                n = pick(I, "number of schemas", [1, 2])
                names = [pick(I, f"schemas[{i}]", [x for x in DOM if x != "not text"]) for i in range(n)]
                lst = [DOM[x] for x in names]
                used = kind == "extended" and pick(I, "extension data", [True, False])
                d = [("schemas", I.new_list(list(lst)))]
                if used:
                    d.append((EXT, I.new_dict([("gamma", 1)])))
                    I.R.labels[("gamma", direction)] = "accepts"
                r, iss = pair(I, meth(I, s, direction, I.new_dict(d)))
                low = [x.lower() for x in lst]
                want = field_spec(lst, used)
                if kind != "extended":
                    want = [w for w in want if w[1] != 27]
                    if any(x != CORE.lower() for x in low):
                        want.append((("schemas",), 27, False))
                same_issues(I, iss, want, f"{direction} with schemas {lst}, extension data {used}")
                got = plain(I, r).get("schemas")
                expect(got == lst, f"schemas {lst} are returned as {got}")
            ctx.case(I, f"schemas field through {kind} {direction}", through, max_paths=20000)

            def rejected(I, kind=kind, direction=direction):
                s = schema(I, kind)
                v = pick(I, "schemas", ["text", "item"])
                val = "urn:x:other" if v == "text" else I.new_list([5, CORE])
                r, iss = pair(I, meth(I, s, direction, I.new_dict([("schemas", val)])))
                if v == "text":
                    same_issues(I, iss, [(("schemas",), 2, True)], f"{direction} with a bad schemas field")
                else:
                    same_issues(I, iss, [(("schemas", 0), 2, True)], f"{direction} with a bad item in schemas")
            ctx.case(I, f"rejected schemas field {kind} {direction}", rejected)

    # -------- extension registration
    def register(I):
        s = I.call(RS, [CORE], {"attrs": I.new_list([]), "name": "Thing"})
        one = I.call(SE, [EXT], {"attrs": I.new_list([]), "name": "Ext"})
        meth(I, s, "with_extension", one)
        u = pick(I, "second extension", [EXT, EXT.upper(), CORE, CORE.lower(), "urn:x:new"])
        try:
            meth(I, s, "with_extension", I.call(SE, [u], {"attrs": I.new_list([]), "name": "E2"}))
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError" and u != "urn:x:new", f"registering extension {u} raises {I.exc_name(e)}")
            return
        expect(u == "urn:x:new", f"extension {u} is registered twice")
        got = [I.norm(x) for x in I.items_of(I.getattr(s, "schemas"))]
        expect(sorted(got) == sorted([CORE, EXT, u]), f"known schemas are {got}")
        got = [I.norm(x) for x in I.items_of(I.getattr(s, "schema_extensions"))]
        expect(sorted(got) == sorted([EXT, u]), f"extensions are {got}")
    ctx.case(I, "registering extensions", register)

    R = ctx.get(I, "src.data.schemas:validate_resource_type_consistency")

    def rtype(I):
        a, b = opaque(I, "provided", kinds=["str"]), opaque(I, "expected", kinds=["str"])
        iss = I.call(R, [], {"resource_type": a, "expected": b})
        same_issues(I, iss, [] if I.eq(a, b) else [(("meta", "resourceType"), 17, False)], "resource type")
    ctx.case(I, "resource type consistency", rtype)

    def rtype_dump(I):
        s = schema(I, "resource")
        rt = I.norm(opaque(I, "meta.resourceType", kinds=["str", "none"]))
        present = pick(I, "present", [True, False])
        m = I.new_dict([("resourceType", rt)] if present else [])
        d = pick(I, "direction", ["dump", "parse"])
        more = pick(I, "other attribute", [True, False])
        v = opaque(I, "alpha", kinds=["str"])
        r, iss = pair(I, meth(I, s, d, I.new_dict([("meta", m)] + [("alpha", v)] * more)))
        ok = not present or d == "parse" or I.eq(rt, "Thing")
        other = [((("alpha", "deep")), e.code, e.stop) for e in tres(I, "alpha", d, v)[1].entries] if more else []
        same_issues(I, iss, other + ([] if ok else [(("meta", "resourceType"), 17, False)]), f"{d} with meta.resourceType")
    ctx.case(I, "resource type of a produced resource", rtype_dump)
