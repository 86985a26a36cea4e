"""C10: logical combination of filter conditions; C11: comparisons."""
from .common import *

O = "src.data.operator:"
A = "src.data.attributes:"
T = "src.data.type:"

FAKES = '''
from src.data.operator import LogicalOperator, AttributeOperator, MatchResult

class Whole(LogicalOperator):
    def __init__(self, tag, outcome):
        self.tag = tag
        self.outcome = outcome
    def match(self, value, attrs, strict=True):
        note(self.tag, value, attrs, strict)
        return MatchResult(self.outcome)

class OnAttr(AttributeOperator):
    def __init__(self, tag, outcome, attr_rep):
        super().__init__(attr_rep)
        self.tag = tag
        self.outcome = outcome
    def match(self, value, attrs, strict=True):
        note(self.tag, value, attrs, strict)
        o = self.outcome
        return MatchResult(o(value) if callable(o) else o)
'''


def fakes(I):
    W, N = ref(I, FAKES, "Whole"), ref(I, FAKES, "OnAttr")
    import hashlib as h
    m = I.mods["ref:" + h.sha1(FAKES.encode()).hexdigest()[:8]]

    def note(I_, args, kw):
        I_.R.events.append(("operand", *[I_.norm(x) for x in args]))
        return None
    m.vars["note"] = StubM(note, "note")
    return W, N


def status(I, r, ST):
    s = I.norm(I.getattr(I.norm(r), "status"))
    for k, v in ST.items():
        if v is s:
            return k
    raise SpecFail(f"match gives {r!r}, not a status")


def c10(ctx):
    I = ctx.interp(native_cont=False)
    Rep, SC = ctx.get(I, "src.data.container:AttrRep"), ctx.get(I, "src.data.container:SCIMDataContainer")
    And, Or, Not = (ctx.get(I, O + n) for n in ("And", "Or", "Not"))
    CAO = ctx.get(I, O + "ComplexAttributeOperator")
    ST = enum(I, O + "MatchStatus")
    At, Cx, Ats = ctx.get(I, A + "Attribute"), ctx.get(I, A + "ComplexAttribute"), ctx.get(I, A + "Attributes")
    String = ctx.get(I, T + "String")
    W, N = ctx.setup(I, fakes)
    ctx.rule("and: fails if an operand fails or names an unknown attribute, else undetermined if one lacks data, else passes; or: passes "
             "if one passes, else undetermined if one lacks data, else fails; not: passes exactly on a failed operand or, leniently, on one "
             "that lacks data; a filter on a complex attribute passes if it does for some item; strictness is handed on")
    attrs = ctx.setup(I, lambda I: I.call(Ats, [I.new_list([])], {}))
    P, F, X, D = "PASSED", "FAILED", "FAILED_NO_ATTR", "MISSING_DATA"

    def operands(I, n, data):
        ops, outs, vals = [], [], {}
        for i in range(n):
            k = pick(I, f"operand {i} is", ["a group", "a condition"])
            o = pick(I, f"operand {i} gives", [P, F, X, D])
            outs.append(o)
            if k == "a group":
                ops.append(I.call(W, [f"op{i}", ST[o]], {}))
                vals[f"op{i}"] = data
            else:
                sub = i == 1 and "x" or ""
                ops.append(I.call(N, [f"op{i}", ST[o], I.call(Rep, [], {"attr": f"a{i}", "sub_attr": sub})], {}))
                vals[f"op{i}"] = I.getitem(data, I.call(Rep, [], {"attr": f"a{i}", "sub_attr": sub}))
        return ops, outs, vals

    def mkdata(I):
        return I.call(SC, [I.new_dict([("A0", opaque(I, "v0", kinds=["str"])), ("a1", I.new_dict([("X", opaque(I, "v1", kinds=["str"]))]))])], {})

    def judged(I, vals, strict):
        for e in I.R.events:
            if e[0] == "operand":
                expect(same(I, e[2], vals[e[1]]), f"condition {e[1]} is judged on {e[2]!r} instead of {vals[e[1]]!r}")
                expect(e[3] is attrs, "condition is judged against other attributes")
                expect(same(I, e[4], strict), f"strict={e[4]!r} is handed on instead of {strict}")

    for name, cls in (("and", And), ("or", Or)):
        for n in (1, 2, 3):
            def many(I, name=name, cls=cls, n=n):
                data = mkdata(I)
                ops, outs, vals = operands(I, n, data)
                strict = pick(I, "strict", [True, False])
                r = status(I, meth(I, I.call(cls, ops, {}), "match", data, attrs, strict), ST)
                if name == "and":
                    want = F if F in outs or X in outs else D if D in outs else P
                else:
                    want = P if P in outs else D if D in outs else F
                expect(r == want, f"'{name}' of {outs} gives {r}, expected {want}")
                judged(I, vals, strict)
            ctx.case(I, f"{name} of {n} conditions", many, max_paths=20000)

    def negation(I):
        data = mkdata(I)
        (op,), (out,), vals = operands(I, 1, data)
        strict = pick(I, "strict", [True, False])
        r = status(I, meth(I, I.call(Not, [op], {}), "match", data, attrs, strict), ST)
        want = P if out == F or out == D and not strict else F
        expect(r == want, f"'not' of {out} (strict={strict}) gives {r}, expected {want}")
        judged(I, vals, True)
    ctx.case(I, "negation", negation)

    def sub_operators(I):
        n = pick(I, "operator", ["and", "or", "not"])
        a, b = I.call(W, ["p", ST[P]], {}), I.call(W, ["q", ST[F]], {})
        if n == "not":
            expect(I.norm(I.getattr(I.call(Not, [a], {}), "sub_operator")) is a, "operand of 'not'")
        else:
            got = [I.norm(x) for x in I.items_of(I.getattr(I.call(And if n == "and" else Or, [a, b], {}), "sub_operators"))]
            expect(len(got) == 2 and got[0] is a and got[1] is b, f"operands of '{n}' are {got}")
    ctx.case(I, "operands", sub_operators)

    # ---------------------------------------------------------------- complex attributes
    def cattrs(I):
        subs = [I.call(At, [], {"name": "x", "type_": String})]
        return I.call(Ats, [I.new_list([
            I.call(Cx, [], {"name": "single", "sub_attributes": I.new_list(list(subs))}),
            I.call(Cx, [], {"name": "multi", "sub_attributes": I.new_list(list(subs)), "multi_valued": True}),
            I.call(At, [], {"name": "plain", "type_": String})])], {})
    cat = ctx.setup(I, cattrs)

    def cx(I):
        kind = pick(I, "attribute", ["single", "multi", "plain", "unknown"])
        shape = pick(I, "value", ["object", "empty list", "one item", "two items", "absent", "null"])
        cond = pick(I, "condition", ["on an attribute", "group"])
        strict = pick(I, "strict", [True, False])
        items = []
        if shape in ("object", "one item", "two items"):
            for i in range(2 if shape == "two items" else 1):
                has = pick(I, f"item {i} value", ["present", "absent", "null"])
                items.append((has, I.call(SC, [I.new_dict([] if has == "absent" else [("X", None if has == "null" else f"v{i}")])], {})))
        value = {"object": lambda: items[0][1], "absent": lambda: I.Missing, "null": lambda: None}.get(
            shape, lambda: I.new_list([x for _, x in items]))()
        outs = [pick(I, f"item {i} gives", [P, F, X, D]) for i in range(len(items))] if kind in ("single", "multi") else []
        if shape == "absent" or shape == "null":
            outs = [pick(I, "nothing gives", [P, F, X, D])] if kind == "single" else []
        seq = list(outs)

        def outcome(I_, args, kw):
            return ST[seq.pop(0)] if seq else ST[F]
        rep = I.call(Rep, [], {"attr": "x"})
        if cond == "group":
            sub = Stub("group")
            sub = I.call(W, ["op", ST[P]], {})
            got = []

            def match(I_, args, kw):
                a = list(args[1:]) if args and args[0] is sub else list(args)
                I_.R.events.append(("operand", "op", *[I_.norm(x) for x in a]))
                return I_.call(ctx.get(I_, O + "MatchResult"), [outcome(I_, (), {})], {})
            sub.attrs["match"] = StubM(match, "match")
        else:
            sub = I.call(N, ["op", StubM(outcome, "outcome"), rep], {})
        op = I.call(CAO, [], {"attr_rep": I.call(Rep, [], {"attr": kind.upper()}), "sub_operator": sub})
        r = status(I, meth(I, op, "match", value, cat, strict), ST)
        what = f"{kind} attribute, value {shape}, {cond}, items {list(zip([h for h, _ in items], outs))}, strict={strict}"
        if kind in ("plain", "unknown"):
            want = X
        elif kind == "multi" and shape == "object" or kind == "single" and shape in ("empty list", "one item", "two items"):
            want = F
        elif P in outs:
            want = P
        elif cond == "group":
            want = P if (D in outs or not outs) and not strict else F
        else:
            want = P if not strict and not any(h == "present" for h, _ in items) else F
        expect(r == want, f"{what}: {r}, expected {want}")
        evs = [e for e in I.R.events if e[0] == "operand"]
        for i, e in enumerate(evs):
            if cond == "group" and items:
                expect(e[2] is items[i][1], f"{what}: condition judged on {e[2]!r} instead of item {i}")
            elif items:
                w = I.getitem(items[i][1], rep)
                expect(same(I, e[2], w), f"{what}: condition judged on {e[2]!r} instead of {w!r}")
            expect(same(I, e[4], strict), f"{what}: strict={e[4]!r} is handed on")
            expect(e[3] is I.norm(I.getattr(meth(I, cat, "get", I.call(Rep, [], {"attr": kind})), "attrs")),
                   f"{what}: condition judged against other attributes than the sub-attributes")
    ctx.case(I, "conditions on complex attributes", cx, max_paths=40000)

    MR = ctx.get(I, O + "MatchResult")

    def truth(I):
        s = pick(I, "status", [P, F, X, D])
        r = I.call(MR, [ST[s]], {})
        try:
            b = I.truth(r)
        except AbsRaise as e:
            expect(s == D and I.exc_name(e) == "ValueError", f"truth of {s} raises {I.exc_name(e)}")
            return
        expect(s != D and b == (s == P), f"truth of {s} is {b}")
    ctx.case(I, "truth of a result", truth)

    # ---------------------------------------------------------------- the filter itself
    Fi = ctx.get(I, "src.filter:Filter")

    def whole(I):
        data = mkdata(I)
        (op,), (out,), vals = operands(I, 1, data)
        if pick(I, "form", ["plain", "complex"]) == "complex" and out in (P, F):
            op = I.call(CAO, [], {"attr_rep": I.call(Rep, [], {"attr": "multi"}), "sub_operator": op})
            it = I.call(SC, [I.new_dict([("A0", opaque(I, "v0", kinds=["str"]))])], {})
            vals = {"op0": it} if isinstance(vals["op0"], AObj) else {"op0": I.getitem(it, "a0")}
            data = I.call(SC, [I.new_dict([("MULTI", I.new_list([it]))])], {})
            sch = Stub("schema", get={"attrs": cat})
        else:
            sch = Stub("schema", get={"attrs": attrs})
        kw = pick(I, "strict", [{}, {"strict": True}, {"strict": False}])
        r = status(I, I.call(I.call(Fi, [op], {}), [data, sch], kw), ST)
        expect(r == out, f"filter over a condition that gives {out} gives {r}")
        for e in I.R.events:
            if e[0] == "operand":
                expect(same(I, e[2], vals["op0"]) or e[2] is vals["op0"], f"condition judged on {e[2]!r} instead of {vals['op0']!r}")
                expect(same(I, e[4], kw.get("strict", True)), f"strict={e[4]!r} is handed on instead of {kw}")
    ctx.case(I, "filter", whole)


# ------------------------------------------------------------------ C11
ORACLE = '''
def lowered(x):
    return x.lower()
def contains(a, b):
    return b in a
def starts(a, b):
    return a.startswith(b)
def ends(a, b):
    return a.endswith(b)
def rel(name, a, b):
    if name == "eq":
        return a == b
    if name == "ne":
        return a != b
    if name == "co":
        return b in a
    if name == "sw":
        return a.startswith(b)
    if name == "ew":
        return a.endswith(b)
    if name == "gt":
        return a > b
    if name == "ge":
        return a >= b
    if name == "lt":
        return a < b
    return a <= b
'''
OPS = {"eq": "Equal", "ne": "NotEqual", "co": "Contains", "sw": "StartsWith", "ew": "EndsWith", "gt": "GreaterThan",
       "ge": "GreaterThanOrEqual", "lt": "LesserThan", "le": "LesserThanOrEqual"}
ANY = {"String", "Decimal", "Integer", "Boolean", "DateTime", "ExternalReference", "URIReference", "SCIMReference", "Binary"}
TEXTUAL = {"String", "ExternalReference", "URIReference", "SCIMReference"}
ORDERED = {"String", "DateTime", "Integer", "Decimal"}
# references share one SCIM type name
SUPPORT = {"eq": ANY, "ne": ANY, "co": TEXTUAL, "sw": TEXTUAL, "ew": TEXTUAL, "gt": ORDERED, "ge": ORDERED, "lt": ORDERED, "le": ORDERED}
VALUES = {"eq": {"str", "bool", "int", "float", "none"}, "ne": {"str", "bool", "int", "float", "none"}, "co": {"str"}, "sw": {"str"}, "ew": {"str"},
          "gt": {"str", "int", "float"}, "ge": {"str", "int", "float"}, "lt": {"str", "int", "float"}, "le": {"str", "int", "float"}}
KIND = {"String": "str", "Decimal": "float", "Integer": "int", "Boolean": "bool", "DateTime": "str", "ExternalReference": "str",
        "URIReference": "str", "SCIMReference": "str", "Binary": "str"}


def c11(ctx):
    I = ctx.interp(native_cont=False)
    Rep, SC = ctx.get(I, "src.data.container:AttrRep"), ctx.get(I, "src.data.container:SCIMDataContainer")
    ST = enum(I, O + "MatchStatus")
    At, Cx, Ats = ctx.get(I, A + "Attribute"), ctx.get(I, A + "ComplexAttribute"), ctx.get(I, A + "Attributes")
    P, F, X, D = "PASSED", "FAILED", "FAILED_NO_ATTR", "MISSING_DATA"
    ctx.rule("a comparison holds exactly when the relation holds between the value (or one of the values of a multi-valued attribute, or the "
             "'value' sub-attribute of one of its items) and the operand; text ignores case unless the attribute is case exact; date-times are compared as instants; absent "
             "data is undetermined (passes leniently); unknown attributes and unsupported types never match")
    ctx.rule("'pr' holds exactly for a non-empty value")

    def rel(I, name, a, b):
        return I.truth(I.call(ref(I, ORACLE, "rel"), [name, a, b], {}))

    def low(I, x):
        return I.call(ref(I, ORACLE, "lowered"), [x], {})

    for name, cname in OPS.items():
        cls = ctx.get(I, O + cname)

        def ctor(I, cls=cls, name=name):
            v = I.norm(opaque(I, "operand", kinds=["str", "bool", "int", "float", "none", "list"], ek=["str"]))
            k = kind_of(I, v)
            try:
                o = I.call(cls, [I.call(Rep, [], {"attr": "a"}), v], {})
            except AbsRaise as e:
                k = kind_of(I, v)
                expect(I.exc_name(e) == "TypeError", f"construction with {k} operand raises {I.exc_name(e)}")
                expect(set(k.split("|")).isdisjoint(VALUES[name]), f"{name} refuses a {k} operand")
                return
            k = kind_of(I, v)
            allowed = set(VALUES[name]) | ({"float"} if name in ("co", "sw", "ew") else set())
            expect(set(k.split("|")) <= allowed, f"{name} takes a {k} operand")
            expect(same(I, I.getattr(o, "value"), v), f"operand of {name} becomes {I.getattr(o, 'value')!r}")
            expect(same(I, I.getattr(o, "SCIM_OP"), name), f"{cname} is called {I.getattr(o, 'SCIM_OP')!r}")
        ctx.case(I, f"{name}: operand", ctor)

        for t in sorted(ANY):
            for holder in ("single", "multi", "complex"):
                for exact in (False, True):
                    typ = ctx.get(I, T + t)

                    def mk(I, typ=typ, holder=holder, exact=exact):
                        a = I.call(At, [], {"name": "value" if holder == "complex" else "a", "type_": typ, "multi_valued": holder == "multi", "case_exact": exact})
                        if holder == "complex":
                            a = I.call(Cx, [], {"name": "a", "multi_valued": True, "sub_attributes": I.new_list([
                                I.call(At, [], {"name": "x", "type_": ctx.get(I, T + "String"), "case_exact": not exact}), a])})
                        return I.call(Ats, [I.new_list([a])], {})
                    attrs = ctx.setup(I, mk)

                    def cmp(I, cls=cls, name=name, t=t, holder=holder, exact=exact, attrs=attrs):
                        ok = pick(I, "operand", sorted(VALUES[name] | ({"float"} if name in ("co", "sw", "ew") else set())))
                        o = I.norm(opaque(I, "operand", kinds=[ok]))
                        op = I.call(cls, [I.call(Rep, [], {"attr": "A"}), o], {})
                        strict = pick(I, "strict", [True, False]) if ok == KIND[t] else True
                        vs, its = [], []
                        n = pick(I, "number of values", [0, 1, 2]) if holder != "single" else 1
                        for i in range(n):
                            v = opaque(I, f"value {i}", kinds=[KIND[t]])
                            if holder == "complex":
                                has = pick(I, f"item {i}", ["value", "no value"])
                                its.append(I.call(SC, [I.new_dict([("X", o), ("VALUE", v)] if has == "value" else [("x", o)])], {}))
                                if has == "no value":
                                    if ok == "none" or name == "ne":
                                        raise Skip()
                                    continue
                            vs.append(v)
                        val = vs[0] if holder == "single" else I.new_list(its if holder == "complex" else list(vs))
                        num = ("int", "float")
                        comparable = ok == KIND[t] or ok in num and KIND[t] in num or ok == "none"
                        if not comparable and t in SUPPORT[name] and (name == "ne" or {ok, KIND[t]} <= {"bool", *num}):
                            raise Skip()
                        r = status(I, meth(I, op, "match", val, attrs, strict), ST)
                        if t not in SUPPORT[name] or not comparable:
                            want = F
                        else:
                            hit = False
                            o = I.norm(o)
                            if t == "DateTime" and ok == "str":
                                conv = lambda x: I.call(Ext("datetime.datetime.fromisoformat"), [x], {})
                                try:
                                    vs, o = [conv(v) for v in vs], conv(o)
                                except AbsRaise:
                                    if n > 1:
                                        raise Skip()        # data that holds no date-time
                                    vs = []
                            for v in vs:
                                if t == "DateTime" and ok == "str":
                                    try:
                                        hit = rel(I, name, v, o)
                                    except AbsRaise:
                                        continue
                                elif ok == "str" and not exact:
                                    hit = rel(I, name, low(I, v), low(I, o))
                                else:
                                    hit = rel(I, name, v, o)
                                if hit:
                                    break
                            want = P if hit else F
                        expect(r == want, f"{'one of ' + str(len(vs)) + ' values' if holder != 'single' else 'value'} {name} {ok} operand on a "
                                          f"{'case exact ' if exact else ''}{t}{' of a complex attribute' if holder == 'complex' else ''}: {r}, expected {want}")
                    label = {"single": "", "multi": "multi-valued ", "complex": "complex "}[holder]
                    ctx.case(I, f"{name} on {label}{'case exact ' if exact else ''}{t}", cmp, max_paths=6000)

        attrs = ctx.setup(I, lambda I: I.call(Ats, [I.new_list([
            I.call(At, [], {"name": "a", "type_": ctx.get(I, T + "String")}),
            I.call(Cx, [], {"name": "cm", "multi_valued": True, "sub_attributes": I.new_list([
                I.call(At, [], {"name": "value", "type_": ctx.get(I, T + "String")}), I.call(At, [], {"name": "x", "type_": ctx.get(I, T + "String")})])}),
            I.call(Cx, [], {"name": "cn", "multi_valued": True, "sub_attributes": I.new_list([I.call(At, [], {"name": "x", "type_": ctx.get(I, T + "String")})])}),
            I.call(Cx, [], {"name": "cs", "sub_attributes": I.new_list([I.call(At, [], {"name": "value", "type_": ctx.get(I, T + "String")})])}),
        ])], {}))

        def nothing(I, cls=cls, name=name, attrs=attrs):
            a = pick(I, "attribute", ["a", "unknown", "cm"])
            v = pick(I, "value", [None, "Missing", "Invalid", "text"])
            strict = pick(I, "strict", [True, False])
            op = I.call(cls, [I.call(Rep, [], {"attr": a}), "x"], {})
            if a == "cm" and v == "text" or a == "a" and v == "text":
                raise Skip()
            r = status(I, meth(I, op, "match", {"Missing": I.Missing, "Invalid": I.Invalid}.get(v, v), attrs, strict), ST)
            want = X if a == "unknown" else F if v == "Invalid" else D if strict else P
            expect(r == want, f"{name} on {a} attribute without usable data ({v}, strict={strict}): {r}, expected {want}")
        ctx.case(I, f"{name} without data", nothing)

        def onvalue(I, cls=cls, name=name, attrs=attrs):
            a = pick(I, "attribute", ["cm", "cn", "cs"])
            op = I.call(cls, [I.call(Rep, [], {"attr": a}), opaque(I, "operand", kinds=["str"])], {})
            o = I.getattr(op, "value")
            if a == "cs":
                val = I.call(SC, [I.new_dict([("value", opaque(I, "v", kinds=["str"]))])], {})
                vs = []
            else:
                n = pick(I, "items", [0, 1, 2])
                vs, its = [], []
                for i in range(n):
                    has = pick(I, f"item {i}", ["value", "no value", "value first"])
                    v = opaque(I, f"v{i}", kinds=["str"])
                    its.append(I.call(SC, [I.new_dict([("x", o)] if has == "no value" else [("VALUE", v)])], {}))
                    if has != "no value":
                        vs.append(v)
                val = I.new_list(its)
            r = status(I, meth(I, op, "match", val, attrs, True), ST)
            want = F
            if a == "cm":
                for v in vs:
                    if rel(I, name, low(I, v), low(I, o)):
                        want = P
                        break
            expect(r == want, f"{name} on complex attribute {a}: {r}, expected {want}")
        ctx.case(I, f"{name} on the values of a complex attribute", onvalue)

    # ---------------------------------------------------------------- presence
    Pr = ctx.get(I, O + "Present")
    for t in sorted(ANY) + ["Complex"]:
        for multi in (False, True):
            if t == "Complex":
                attrs = ctx.setup(I, lambda I: I.call(Ats, [I.new_list([I.call(Cx, [], {"name": "a", "multi_valued": multi, "sub_attributes":
                    I.new_list([I.call(At, [], {"name": "value", "type_": ctx.get(I, T + "String")})])})])], {}))
            else:
                attrs = ctx.setup(I, lambda I: I.call(Ats, [I.new_list([I.call(At, [], {
                    "name": "a", "type_": ctx.get(I, T + t), "multi_valued": multi})])], {}))

            def pr(I, t=t, multi=multi, attrs=attrs):
                a = pick(I, "attribute", ["A", "unknown"])
                what = pick(I, "value", ["null", "missing", "invalid", "value"])
                strict = pick(I, "strict", [True, False])
                full = False
                if what != "value":
                    val = {"null": None, "missing": I.Missing, "invalid": I.Invalid}[what]
                elif t == "Complex" and not multi:
                    val = I.call(SC, [I.new_dict([("value", "x")])], {})
                elif multi:
                    n = pick(I, "number of values", [0, 1, 2])
                    its = []
                    for i in range(n):
                        v = opaque(I, f"v{i}", kinds=["str"])
                        its.append(v if t != "Complex" else I.call(SC, [I.new_dict([("Value", v)] if pick(I, f"item {i}", ["value", "none"]) == "value" else [])], {}))
                    val = I.new_list(its)
                else:
                    val = opaque(I, "v", kinds=[KIND[t]])
                r = status(I, meth(I, I.call(Pr, [I.call(Rep, [], {"attr": a})], {}), "match", val, attrs, strict), ST)
                if what == "value" and multi:
                    full = any([I.truth(v if t != "Complex" else I.getitem(v, "value")) for v in its])
                elif what == "value" and t != "Complex":
                    full = I.truth(val) if KIND[t] == "str" else True
                want = X if a == "unknown" else P if full else F
                expect(r == want, f"pr on {'multi-valued ' if multi else ''}{t} ({what}): {r}, expected {want}")
            ctx.case(I, f"pr on {'multi-valued ' if multi else ''}{t}", pr)
