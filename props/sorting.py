"""C13: sorting."""
from .common import *

A = "src.data.attributes:"
T = "src.data.type:"

CMP = '''
def less(a, b):
    return a < b
def lower(a):
    return a.lower()
'''


def c13(ctx):
    I = ctx.interp(native_cont=False)
    Rep, SC = ctx.get(I, "src.data.container:AttrRep"), ctx.get(I, "src.data.container:SCIMDataContainer")
    At, Cx = ctx.get(I, A + "Attribute"), ctx.get(I, A + "ComplexAttribute")
    RS = ctx.get(I, "src.data.schemas:ResourceSchema")
    So = ctx.get(I, "src.sorter:Sorter")
    String = ctx.get(I, T + "String")
    ctx.rule("stable order by the sort value (first value of a multi-valued attribute, value of the primary item of a complex one); text ignores "
             "case unless the attribute is case exact; resources without a value last (first when descending); the given list is unchanged")

    def less(I, a, b):
        return I.truth(I.call(ref(I, CMP, "less"), [a, b], {}))

    def low(I, a):
        return I.call(ref(I, CMP, "lower"), [a], {})

    def mk(I, urn, attrs):
        return I.call(RS, [urn], {"attrs": I.new_list(attrs), "name": "T"})

    def simple(I, exact, t="String", urn="urn:x:one", **kw):
        return mk(I, urn, [I.call(At, [], {"name": "a", "type_": ctx.get(I, T + t), "case_exact": exact, **kw})])

    def cplx(I, exact, multi, value=True):
        subs = [I.call(At, [], {"name": "value" if value else "other", "type_": String, "case_exact": exact}),
                I.call(At, [], {"name": "primary", "type_": ctx.get(I, T + "Boolean")})]
        return mk(I, "urn:x:one", [I.call(Cx, [], {"name": "a", "multi_valued": multi, "sub_attributes": I.new_list(subs)})])

    def has(I, v):
        """the value counts: anything but nothing, the empty text or the markers"""
        v = I.norm(v)
        if v is None or same(I, v, I.Missing) or same(I, v, I.Invalid):
            return False
        if kind_of(I, v) == "str":
            return I.truth(v)
        return True

    def order(I, items, keys, asc):
        """stable insertion sort over (item, key); key None: without value"""
        def before(k1, k2):          # k1 strictly before k2, ascending
            if k1 is None or k2 is None:
                return k1 is not None and k2 is None
            x, y, exact = k1[0], k2[0], k1[1] or k2[1]
            if k1[2]:
                return less(I, x, y) if exact else less(I, low(I, x), low(I, y))
            return less(I, x, y)
        out = []
        for it, k in zip(items, keys):
            pos = len(out)
            while pos and (before(k, out[pos - 1][1]) if asc else before(out[pos - 1][1], k)):
                pos -= 1
            out.insert(pos, (it, k))
        return [i for i, _ in out]

    def check(I, rep, asc, items, keys, schema, what):
        data = I.new_list(list(items))
        r = I.call(I.call(So, [rep], {} if asc is None else {"asc": asc}), [data, schema], {})
        got = [I.norm(x) for x in I.items_of(r)]
        want = order(I, items, keys, asc is not False)
        show = lambda l: [next((i for i, x in enumerate(items) if x is y), "?") for y in l]
        expect(len(got) == len(want) and all(x is y for x, y in zip(got, want)), f"{what}: order {show(got)}, expected {show(want)}")
        now = [I.norm(x) for x in data.items]
        expect(len(now) == len(items) and all(x is y for x, y in zip(now, items)), f"{what}: the given list is changed")

    for n in ((2, 3) if ctx.tier == "thorough" else (2,)):
        for exact in (False, True):
            s = ctx.setup(I, lambda I: simple(I, exact))

            def text(I, exact=exact, s=s, n=n):
                asc = pick(I, "ascending", [None, True, False])
                items, keys = [], []
                for i in range(n):
                    w = pick(I, f"resource {i}", ["text", "absent", "null"])
                    v = opaque(I, f"v{i}", kinds=["str"])
                    items.append(I.call(SC, [I.new_dict([("A", v)] if w == "text" else [("a", None)] if w == "null" else [])], {}))
                    keys.append((v, exact, True) if w == "text" else None)
                keys = [k if k and has(I, k[0]) else None for k in keys]
                check(I, I.call(Rep, [], {"attr": "A"}), asc, items, keys, s, f"{'case exact ' if exact else ''}text")
            ctx.case(I, f"{n} {'case exact ' if exact else ''}texts", text, max_paths=20000)

        for t, k in (("Integer", "int"), ("Decimal", "float"), ("Boolean", "bool")):
            s = ctx.setup(I, lambda I: simple(I, False, t))

            def number(I, t=t, k=k, s=s, n=n):
                asc = pick(I, "ascending", [True, False])
                items, keys = [], []
                for i in range(n):
                    w = pick(I, f"resource {i}", ["value", "absent", "falsy"])
                    v = {"falsy": {"int": 0, "float": 0.0, "bool": False}[k], "absent": None}.get(w, None) if w != "value" else opaque(I, f"v{i}", kinds=[k])
                    items.append(I.call(SC, [I.new_dict([("a", v)] if w != "absent" else [])], {}))
                    keys.append((v, True, False) if w != "absent" else None)
                check(I, I.call(Rep, [], {"attr": "a"}), asc, items, keys, s, t)
            ctx.case(I, f"{n} values of type {t}", number, max_paths=20000)

    s = ctx.setup(I, lambda I: simple(I, False, multi_valued=True))

    def multi(I, s=s):
        asc = pick(I, "ascending", [True, False])
        items, keys = [], []
        for i in range(2):
            w = pick(I, f"resource {i}", ["one", "two", "empty", "absent"])
            v, u = opaque(I, f"v{i}", kinds=["str"]), opaque(I, f"u{i}", kinds=["str"])
            items.append(I.call(SC, [I.new_dict([("a", I.new_list({"one": [v], "two": [v, u], "empty": []}[w]))] if w != "absent" else [])], {}))
            keys.append((v, False, True) if w in ("one", "two") else None)
        keys = [k if k and has(I, k[0]) else None for k in keys]
        check(I, I.call(Rep, [], {"attr": "a"}), asc, items, keys, s, "first values")
    ctx.case(I, "multi-valued attribute", multi, max_paths=20000)

    for exact in (False, True):
        for value in (True, False):
            s = ctx.setup(I, lambda I: cplx(I, exact, True, value))

            def primary(I, s=s, exact=exact, value=value):
                asc = pick(I, "ascending", [True, False])
                items, keys = [], []
                for i in range(2):
                    w = pick(I, f"resource {i}", ["first", "second", "none", "absent"] if value else ["first", "none"])
                    v, u = opaque(I, f"v{i}", kinds=["str"]), opaque(I, f"u{i}", kinds=["str"])
                    a = I.new_dict([("value", v), ("PRIMARY", True if w == "first" else False)])
                    b = I.new_dict([("primary", True), ("Value", u)] if w == "second" else [("value", u)])
                    items.append(I.call(SC, [I.new_dict([("a", I.new_list([a, b]))] if w != "absent" else [])], {}))
                    k = {"first": v, "second": u}.get(w)
                    keys.append((k, exact, True) if k is not None and value else None)
                keys = [k if k and has(I, k[0]) else None for k in keys]
                check(I, I.call(Rep, [], {"attr": "a"}), asc, items, keys, s, "values of primary items")
            ctx.case(I, f"complex attribute {'with' if value else 'without'} {'case exact ' if exact else ''}value", primary, max_paths=20000)

    s = ctx.setup(I, lambda I: cplx(I, False, False))

    def sub(I, s=s):
        asc = pick(I, "ascending", [True, False])
        items, keys = [], []
        for i in range(2):
            w = pick(I, f"resource {i}", ["value", "no value", "absent"])
            v = opaque(I, f"v{i}", kinds=["str"])
            items.append(I.call(SC, [I.new_dict([("a", I.new_dict([("value", v)] if w == "value" else []))] if w != "absent" else [])], {}))
            keys.append((v, False, True) if w == "value" else None)
        keys = [k if k and has(I, k[0]) else None for k in keys]
        check(I, I.call(Rep, [], {"attr": "a", "sub_attr": "VALUE"}), asc, items, keys, s, "sub-attribute values")
    ctx.case(I, "sub-attribute", sub, max_paths=20000)

    def unknown(I):
        items = [I.call(SC, [I.new_dict([("zz", opaque(I, f"v{i}", kinds=["str"]))])], {}) for i in range(2)]
        check(I, I.call(Rep, [], {"attr": "zz"}), pick(I, "ascending", [True, False]), items, [None, None], s, "unknown attribute")
    ctx.case(I, "unknown attribute", unknown)

    # ---------------------------------------------------------------- resources of several types
    pairs = ctx.setup(I, lambda I: {(e1, e2): (simple(I, e1), simple(I, e2, urn="urn:x:two"), mk(I, "urn:x:three", []))
                                    for e1 in (False, True) for e2 in (False, True)})

    def types(I):
        e = pick(I, "case exactness", list(pairs))
        s1, s2, s3 = pairs[e]
        asc = pick(I, "ascending", [True, False])
        which = pick(I, "schemas", ["one two", "two one", "one one", "one three", "three two"])
        ss, exs = [], []
        for w in which.split():
            ss.append({"one": s1, "two": s2, "three": s3}[w])
            exs.append({"one": e[0], "two": e[1], "three": None}[w])
        items, keys = [], []
        for i in range(2):
            v = opaque(I, f"v{i}", kinds=["str"])
            items.append(I.call(SC, [I.new_dict([("a", v), ("id", f"id{i}")])], {}))
            keys.append((v, exs[i], True) if exs[i] is not None else None)
        keys = [k if k and has(I, k[0]) else None for k in keys]
        check(I, I.call(Rep, [], {"attr": "a"}), asc, items, keys, I.new_list(ss), f"resources of {which}")
    ctx.case(I, "resources of several types", types, max_paths=20000)

    def names(I):
        G = {"a": ("", "a", ""), "A.x": ("", "A", "x"), "urn:x:a.y": ("urn:x", "a", "y")}
        n = pick(I, "name", list(G) + ["a b", "", "a.b.c"])
        asc = pick(I, "ascending", [None, True, False])
        r, iss = pair(I, meth(I, So, "parse", n, **({} if asc is None else {"asc": asc})))
        if n not in G:
            same_issues(I, iss, [((), 111, True)], f"sorting by {n!r}")
            expect(same(I, r, I.Invalid), f"sorting by {n!r} gives a sorter")
            return
        same_issues(I, iss, [], f"sorting by {n!r}")
        rep = I.getattr(r, "attr_rep")
        got = tuple(I.norm(I.getattr(rep, p)) for p in ("schema", "attr", "sub_attr"))
        expect(got == G[n], f"sort attribute {n!r} is read as {got}")
        expect(I.truth(I.getattr(r, "asc")) == (asc is not False), f"ascending={asc} becomes {I.norm(I.getattr(r, 'asc'))}")
    ctx.case(I, "reading the sort attribute", names)
