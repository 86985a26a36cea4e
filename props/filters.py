"""C12: filter expressions are read as the condition they denote; C26: paths of PATCH operations."""
from .common import *

F = "src.filter:Filter"
OP = "src.data.operator:"
CLS = {"eq": "Equal", "ne": "NotEqual", "co": "Contains", "sw": "StartsWith", "ew": "EndsWith", "gt": "GreaterThan", "ge": "GreaterThanOrEqual",
       "lt": "LesserThan", "le": "LesserThanOrEqual", "pr": "Present", "and": "And", "or": "Or", "not": "Not", "complex": "ComplexAttributeOperator"}
ALLOWED = {**{k: ("str", "int", "float", "bool", "none") for k in ("eq", "ne")}, **{k: ("str",) for k in ("co", "sw", "ew")},
           **{k: ("str", "int", "float") for k in ("gt", "ge", "lt", "le")}}


def tree(I, o, C):
    """abstract operator object -> nested tuples"""
    o = I.norm(o)
    if not isinstance(o, AObj):
        return ("?", o)
    n = next((k for k, c in C.items() if o.cls is c), None)
    if n is None:
        return ("?", o.cls.name)
    rep = lambda: tuple(I.norm(I.getattr(I.getattr(o, "attr_rep"), x)) for x in ("schema", "attr", "sub_attr"))
    if n in ("and", "or"):
        return (n, *[tree(I, x, C) for x in I.items_of(I.getattr(o, "sub_operators"))])
    if n == "not":
        return (n, tree(I, I.getattr(o, "sub_operator"), C))
    if n == "complex":
        return (n, rep(), tree(I, I.getattr(o, "sub_operator"), C))
    if n == "pr":
        return (n, rep())
    v = I.norm(I.getattr(o, "value"))
    return (n, rep(), (type(v).__name__, v))


# ------------------------------------------------------------------ expressions and what they denote
ATTRS = {"a": ("", "a", ""), "userName": ("", "userName", ""), "notes": ("", "notes", ""), "order_1": ("", "order_1", ""), "android": ("", "android", ""),
         "name.familyName": ("", "name", "familyName"), "urn:x:Core:a": ("urn:x:Core", "a", ""), "urn:ietf:params:scim:schemas:core:2.0:User:b.c":
         ("urn:ietf:params:scim:schemas:core:2.0:User", "b", "c"), "urn:my-co:x_1:2.0:User:m.$ref": ("urn:my-co:x_1:2.0:User", "m", "$ref"),
         "a-b.c:d": ("a-b.c", "d", "")}
VALUES = {'"x"': "x", "'x'": "x", '""': "", "''": "", '"a b"': "a b", '" x "': " x ", '"a and b or not c"': "a and b or not c", '"(x) [y pr] ]"': "(x) [y pr] ]",
          "'it\"s'": 'it"s', '"it\'s"': "it's", "'\"x\"'": '"x"', '"\'x\'"': "'x'", '"\'"': "'", '"true"': "true", '"5"': "5", '"null"': "null", "5": 5, "-5": -5, "0": 0, "5.5": 5.5, "-0.25": -0.25, "5.0": 5, "1e3": 1000, "5.0000000001": 5.0000000001, "-1.5E2": -150, "1e-5": 1e-05, "123456.789": 123456.789, '"ÉÀ"': "ÉÀ", '"a\\\\b"': "a\\\\b",
          "9007199254740993": 9007199254740993, "true": True, "false": False, "null": None, '"a eq 5"': "a eq 5", '"a\tb"': "a\tb", '"a\nb"': "a\nb"}
BAD_VALUES = ["x", "tru", "True", "NULL", "nan", "inf", "-inf", "1e999", "0x5", "5x", '"x', "x\"", "--5", '"', "'", '5"', 'true"', "x'", "'x", "\"x'", "5'"]


def leaf(attr, op, value=None):
    """(text, denoted tree)"""
    s, a, sub = ATTRS[attr] if attr in ATTRS else ("", attr, "")
    v = () if value is None else ((type(VALUES[value]).__name__, VALUES[value]),)
    t = (op, ("", sub, "") if sub else (s, a, ""), *v)
    if sub:
        t = ("complex", (s, a, ""), t)
    return f"{attr} {op}" + (f" {value}" if value is not None else ""), t


LEAVES = [leaf("a", "pr"), leaf("userName", "eq", '"x"'), leaf("name.familyName", "co", '"a and b or not c"'), leaf("order_1", "gt", "5"),
          leaf("urn:x:Core:a", "sw", '"(x) [y pr] ]"'), leaf("notes", "ne", "null"), leaf("userName", "eq", '"x"'), leaf("android", "le", "5.5"),
          leaf("b", "eq", "true")]
for i, (t, d) in enumerate([leaf("f", "pr"), leaf("g", "eq", "'it\"s'")]):
    LEAVES.insert(2 + 3 * i, (f"emails[{t}]", ("complex", ("", "emails", ""), d)))
LEAVES.insert(5, ("urn:my-co:x_1:2.0:User:m[g lt -5]", ("complex", ("urn:my-co:x_1:2.0:User", "m", ""), leaf("g", "lt", "-5")[1])))
LEAVES.insert(4, ('m[f eq "x" or not (g pr and h pr)]', ("complex", ("", "m", ""), ("or", leaf("f", "eq", '"x"')[1], ("not", ("and", leaf("g", "pr")[1], leaf("h", "pr")[1]))))))
LEAVES.insert(7, ('urn:x:Core:m[f eq "[" and g lt 3]'.replace("lt 3", "lt 5"), ("complex", ("urn:x:Core", "m", ""), ("and", ("eq", ("", "f", ""), ("str", "[")), leaf("g", "lt", "5")[1]))))


def denote(items, ops):
    """items joined by and/or: 'and' binds stronger"""
    groups = [[items[0]]]
    for o, x in zip(ops, items[1:]):
        if o == "and":
            groups[-1].append(x)
        else:
            groups.append([x])
    ands = [g[0] if len(g) == 1 else ("and", *g) for g in groups]
    return ands[0] if len(ands) == 1 else ("or", *ands)


def structures(n):
    """all sequences of n leaves with and/or, 'not' and groups; yields nested lists of ('leaf'|'not leaf'|('group'|'not group', structure), op...)"""
    import itertools

    def parts(m):
        """compositions of m leaves into a sequence of items; an item of size 1 is a leaf, larger ones are groups"""
        if m == 0:
            yield []
            return
        for k in range(1, m + 1):
            for rest in parts(m - k):
                yield [k] + rest

    def seq(m, top):
        for p in parts(m):
            if len(p) == 1 and not top and m > 1:
                continue        # a group that only holds a group
            alts = []
            for k in p:
                if k == 1:
                    alts.append(["leaf", "not leaf"])
                else:
                    alts.append([(w, s) for s in seq(k, False) for w in ("group", "not group")] if not (len(p) == 1 and top and False) else [])
            for items in itertools.product(*alts):
                for ops in itertools.product(("and", "or"), repeat=len(p) - 1):
                    yield (items, ops)
    yield from seq(n, True)


def render(struct, leaves, style):
    """(text, denoted tree)"""
    items, ops = struct
    texts, trees = [], []
    sp = {"plain": " ", "wide": "  \t", "lines": "\n "}.get(style, " ")
    for it in items:
        if isinstance(it, str):
            t, d = next(leaves)
            if style in ("wide", "lines") and '"' not in t and "'" not in t:
                t = t.replace(" ", sp)
            if it == "not leaf":
                t, d = "not" + sp + t, ("not", d)
        else:
            t, d = render(it[1], leaves, style)
            t = f"({sp if style == 'wide' else ''}{t}{sp if style == 'wide' else ''})"
            if style == "double":
                t = f"({t})"
            if it[0] == "not group":
                t, d = "not" + ("" if style == "tight" else sp) + t, ("not", d)
        texts.append(t)
        trees.append(d)
    out = texts[0]
    for i, (o, t) in enumerate(zip(ops, texts[1:])):
        left = "" if style == "tight" and out.endswith((")", '"', "]")) else sp
        right = "" if style == "tight" and t.startswith("(") else sp
        out += left + o + right + t
    return out, denote(trees, ops)


def supply(start, step=1):
    k = start
    while True:
        yield LEAVES[k % len(LEAVES)]
        k += step


REJECTED = {
    "": 107, "   ": 107, "()": 107, "a pr and ()": 107, "( )": 107, "a": 106, "a eq \"x\" y": 106, "a pr not b pr": 106, "a eq": 104, "a EQ": 104, "not": 104, "and": 104, "or": 104,
    "a pr and": 104, "a pr or": 104, "and a pr": 104, "or a pr": 104, "a pr and and b pr": 104, "a pr or or b pr": 104, "a pr and not": 104, "a pr and (b pr or)": 104,
    "a[b pr and]": 104, "a[not]": 104, "(a pr": 100, "a pr)": 100, "((a pr)": 100, "(a pr))": 100, ")a pr(": 100, "a[(b pr]": 100, "a[b pr)]": 100, "a[b pr": 102, "a b pr]": 102,
    "a pr and b]": 102, "a[b[c pr]]": 109, "a[b pr and c[d pr]]": 109, "a[]": 110, "a[ ]": 110, "[]": 110, "[a pr]": 111, "a.b[c pr]": 33, "urn:x:C:a.b[c pr]": 33,
    "a xx": 105, "a xx \"y\"": 105, "a eqq 5": 105, "a pr 5": 105, "a.b.c pr": 111, "a,b pr": 111, "a.b.c eq 5": 111, "a[b.c.d pr]": 111, "(a pr) b": 105,
    "a pr and b eq": 104, "b eq and a pr": 104, "a[b eq]": 104, "a[b xx 5]": 105, "a[b eq x]": 112, "not a": 106, "a pr or b": 106, "a pr and (b xx 5)": 105,
    "not not a pr": 105, "not not (a pr)": 105, "a[not not b pr]": 105, "a pr or not not b pr": 105,
}


def c12(ctx):
    I = ctx.interp(native_cont=False)
    P = I.lookup(F)
    parse = ctx.get(I, F)
    C = {k: ctx.get(I, OP + n) for k, n in CLS.items()}
    ctx.rule("or binds weaker than and, and weaker than not; brackets group; attr[...] and attr.sub are conditions on a complex attribute; every comparison has its operator, attribute and "
             "typed value; anything else is rejected with a finding and gives no filter")
    full = ctx.tier == "thorough"

    def read(I, text, want, what="filter"):
        r, iss = pair(I, meth(I, parse, "parse", text))
        es, ts = entries(I, iss)
        expect(not es and not ts, f"{what} {text!r} is rejected with {sorted({e[1] for e in es})}, expected {want}")
        expect(isinstance(r, AObj) and r.cls is parse, f"{what} {text!r} gives {r!r}")
        got = tree(I, I.getattr(r, "operator"), C)
        expect(got == want, f"{what} {text!r} is read as {got}, denotes {want}")

    def reject(I, text, code):
        r, iss = pair(I, meth(I, parse, "parse", text))
        es, ts = entries(I, iss)
        expect(es or ts, f"filter {text!r} is accepted")
        expect(same(I, r, I.Invalid), f"filter {text!r} is rejected, yet gives {r!r}")
        expect(any(e[1] == code for e in es), f"filter {text!r} is rejected with {sorted({str(e[1]) for e in es})}, expected {code}")
        expect(all(e[2] for e in es), f"filter {text!r}: a finding does not block")

    def comparisons(I):
        op = pick(I, "operator", list(ALLOWED))
        a = pick(I, "attribute", list(ATTRS) if full or op in ("eq", "lt") else ["userName", "name.familyName"])
        val = pick(I, "value", VALUES)
        if not full and a not in ("userName", "name.familyName") and val not in ('"x"', "5", "null"):
            raise Skip()
        text, want = leaf(a, op, val)
        k = {"NoneType": "none"}.get(type(VALUES[val]).__name__, type(VALUES[val]).__name__)
        if k in ALLOWED[op]:
            read(I, text, want)
            if val in ('"x"', "5"):
                s = pick(I, "spelling", ["upper", "title", "wide"])
                t = text.replace(f" {op} ", {"upper": f" {op.upper()} ", "title": f" {op.title()} ", "wide": f" \t {op}\n "}[s])
                read(I, t, want)
        else:
            reject(I, text, 113)
    ctx.case(I, "comparisons", comparisons, max_paths=20000)

    def unary(I):
        a = pick(I, "attribute", list(ATTRS))
        text, want = leaf(a, "pr")
        s = pick(I, "spelling", ["plain", "upper", "wide", "group", "not", "spaces"])
        t = {"plain": text, "upper": text[:-2] + "PR", "wide": text.replace(" ", "  \t"), "group": f"({text})", "not": f"not {text}", "spaces": f"  {text}\n"}[s]
        read(I, t, ("not", want) if s == "not" else want)
    ctx.case(I, "presence", unary)

    def bad(I):
        op = pick(I, "operator", list(ALLOWED) if full else ["eq", "co", "ge"])
        reject(I, f"a {op} {pick(I, 'value', BAD_VALUES)}", 112)
    ctx.case(I, "malformed values", bad)

    def malformed(I):
        text = pick(I, "text", REJECTED)
        w = pick(I, "in", ["alone", "after", "before"])
        t = {"alone": text, "after": f'b eq "x" and {text}', "before": f'{text} or b eq "x"'}[w]
        if w != "alone" and text.strip() in ("", "and", "or", "not", "a pr and", "a pr or", "and a pr", "or a pr", "a pr and not", "a", "a pr)", ")a pr(", "(a pr))", "a b pr]", "a eq", "a EQ",
                                             "a pr and b", "not a", "a pr or b", "a pr and b]", "a eq \"x\" y", "(a pr) b", "a[b pr", "((a pr)", "(a pr", "a[(b pr]"):
            raise Skip()
        reject(I, t, REJECTED[text])
    ctx.case(I, "malformed expressions", malformed)

    S = {n: list(structures(n)) for n in (1, 2, 3, 4)}
    styles = ["plain", "wide", "tight", "double", "lines"]

    def logic(I):
        n = 0
        work = []
        for m in (1, 2, 3):
            for k, st in enumerate(S[m]):
                work.append((m, k))
        if full:
            work += [(4, k) for k in range(len(S[4]))]
        else:
            work += [(4, k) for k in range(0, len(S[4]), 23)]
        chunks = 64
        c = pick(I, "structures", list(range(chunks)))
        for m, k in work[c::chunks]:
            st = S[m][k]
            style = styles[k % len(styles)] if not full else None
            for s in ([style] if style else styles):
                text, want = render(st, supply(k * 7 + m), s)
                read(I, text, want)
        ctx.extra["expressions_per_run"] = len(work) * (len(styles) if full else 1)
    ctx.case(I, "nesting of and, or, not and groups", logic, max_paths=20000)

    def positions(I):
        """parts of an expression are told apart wherever they stand"""
        n = pick(I, "length of a name", list(range(1, 24)) if not full else list(range(1, 48)))
        q = "q" * n
        p = ("pr", ("", q, ""))
        z = lambda x: ("pr", ("", x, ""))
        E = ("eq", ("", "b", ""), ("str", "x"))
        cx = ("complex", ("", "z", ""), z("c"))
        read(I, f"{q} pr and (z[c pr] or (a pr))", ("and", p, ("or", cx, z("a"))))
        read(I, f'{q} pr and (b eq "x" or (a pr and b eq "x"))', ("and", p, ("or", E, ("and", z("a"), E))))
        read(I, f'z[c pr] or {q} pr and (a pr) or (z[c pr])', ("or", cx, ("and", p, z("a")), cx))
        read(I, f'(({q} pr) and (z[{q} pr])) or b eq "x"', ("or", ("and", p, ("complex", ("", "z", ""), p)), E))
        V = lambda v: ("eq", ("", "a", ""), ("str", v))
        read(I, f"""{q} pr and b eq "x" or a eq '"x"'""", ("or", ("and", p, E), V('"x"')))
        read(I, f"""a eq '"x"' or b eq "x" or {q} pr or a eq "'x'" or b eq 'x'""", ("or", V('"x"'), E, p, V("'x'"), E))
        read(I, f"""z[b eq "x" or a eq '"x"'] and {q} pr""", ("and", ("complex", ("", "z", ""), ("or", E, V('"x"'))), p))
        read(I, f'z[{q} eq "x" and (c pr or b eq "x")] and (b eq "x")', ("and", ("complex", ("", "z", ""), ("and", ("eq", ("", q, ""), ("str", "x")), ("or", z("c"), E))), E))
    ctx.case(I, "positions", positions, max_paths=20000)

    # ---------------------------------------------------------------- applying, rendering, comparing
    Rep = ctx.get(I, "src.data.container:AttrRep")
    SC = ctx.get(I, "src.data.container:SCIMDataContainer")
    LO = ctx.get(I, OP + "LogicalOperator")

    REFS = '''
from src.data import operator as op
class Leaf(op.Equal):
    def match(self, *args, **kw):
        return matched(self, *args, **kw)
class Cplx(op.ComplexAttributeOperator):
    def match(self, *args, **kw):
        return matched(self, *args, **kw)
class Both(op.And):
    def match(self, *args, **kw):
        return matched(self, *args, **kw)
'''

    def apply(I):
        kind = pick(I, "condition", ["Leaf", "Cplx", "Both"])
        rep = I.call(Rep, [], {"attr": "alpha"})
        cls = ref(I, REFS, kind)
        m = I.mods["ref:" + hashlib.sha1(REFS.encode()).hexdigest()[:8]]
        result = opaque(I, "result", kinds=["other"])
        seen = []

        def matched(I_, args, kw):
            d = dict(zip(("self", "value", "attrs", "strict"), args))
            d.update(kw)
            seen.append({k: I_.norm(v) for k, v in d.items()})
            return result
        m.vars["matched"] = StubM(matched, "matched")
        leaf_ = I.call(ref(I, REFS, "Leaf"), [rep, "x"], {})
        o = leaf_ if kind == "Leaf" else I.call(cls, [rep, leaf_], {}) if kind == "Cplx" else I.call(cls, [leaf_, leaf_], {})
        f = I.call(parse, [o], {})
        v = opaque(I, "alpha", kinds=["str"])
        data = I.call(SC, [I.new_dict([("ALPHA", v), ("beta", 1)])], {})
        attrs = opaque(I, "attributes", kinds=["other"])
        schema = Stub("schema", get={"attrs": lambda I_: attrs})
        strict = pick(I, "strict", [True, False, None])
        r = I.call(f, [data, schema], {} if strict is None else {"strict": strict})
        expect(same(I, r, result), "the filter's result is not its condition's")
        expect(len(seen) == 1 and seen[0]["self"] is o, "the filter evaluates another condition")
        d = seen[0]
        vals = [x for k, x in d.items() if k != "self"]
        expect(any(same(I, x, data if kind == "Both" else v) for x in vals), f"the condition is evaluated on {vals!r}")
        expect(any(same(I, x, attrs) for x in vals), "the condition is evaluated with other attributes")
        expect(any(same(I, x, True if strict is None else strict) for x in vals), "strictness is not handed on")
    ctx.case(I, "applying a filter", apply)

    TEXTS = ["a pr", "b pr", 'a eq "x"', 'a eq "y"', 'a ne "x"', "a eq 5", "a.b pr", "a[b pr]", "a[c pr]", "c[b pr]", "a pr and b pr", "a pr or b pr", "b pr and a pr", "not a pr",
             "a pr and b pr and c pr", "a pr and (b pr and c pr)", "urn:x:C:a pr", 'a[b eq "x"]']
    SAME = [("a.b pr", "a[b pr]"), ("(a pr)", "a pr"), ("a  PR", "a pr"), ("A pr", "a pr")]

    def equal(I):
        a = pick(I, "first", range(len(TEXTS)))
        fs = [pair(I, meth(I, parse, "parse", t))[0] for t in TEXTS]
        for j, t in enumerate(TEXTS):
            e = I.truth(I.eq_value(fs[a], fs[j])) if hasattr(I, "eq_value") else I.eq(fs[a], fs[j])
            w = a == j or {TEXTS[a], t} == {"a.b pr", "a[b pr]"}
            expect(e == w, f"filters {TEXTS[a]!r} and {t!r} are {'equal' if e else 'different'}")
    ctx.case(I, "equality of filters", equal)


PATHS = {
    "a": (("", "a", ""), None, None), "a.b": (("", "a", "b"), None, None), "urn:x:Core:a": (("urn:x:Core", "a", ""), None, None),
    "urn:x:2.0:User:a.b": (("urn:x:2.0:User", "a", "b"), None, None), "a[b pr]": (("", "a", ""), ("pr", ("", "b", "")), None),
    'a[b eq "x"].c': (("", "a", ""), ("eq", ("", "b", ""), ("str", "x")), ("", "a", "c")),
    "urn:x:Core:a[b pr].c": (("urn:x:Core", "a", ""), ("pr", ("", "b", "")), ("urn:x:Core", "a", "c")),
    'a[b eq "x" and not (c gt 5)].d': (("", "a", ""), ("and", ("eq", ("", "b", ""), ("str", "x")), ("not", ("gt", ("", "c", ""), ("int", 5)))), ("", "a", "d")),
    'a[b eq "]"]': (("", "a", ""), ("eq", ("", "b", ""), ("str", "]")), None), 'a[b eq "[x]"].c': (("", "a", ""), ("eq", ("", "b", ""), ("str", "[x]")), ("", "a", "c")),
    "a[b eq 'it\"s'].c": (("", "a", ""), ("eq", ("", "b", ""), ("str", 'it"s')), ("", "a", "c")),
    'a[b eq "x" or c eq "x"].d': (("", "a", ""), ("or", ("eq", ("", "b", ""), ("str", "x")), ("eq", ("", "c", ""), ("str", "x"))), ("", "a", "d")),
    'a[b eq "a.b"]': (("", "a", ""), ("eq", ("", "b", ""), ("str", "a.b")), None), 'a[b eq ""].c': (("", "a", ""), ("eq", ("", "b", ""), ("str", "")), ("", "a", "c")),
    "members[value eq \"5\"].displayName": (("", "members", ""), ("eq", ("", "value", ""), ("str", "5")), ("", "members", "displayName")),
    "a[b pr].A.c": (("", "a", ""), ("pr", ("", "b", "")), ("", "A", "c")), "a[(b pr)]": (("", "a", ""), ("pr", ("", "b", "")), None),
    "urn:my-co:2.0:User:a[b pr].$ref": (("urn:my-co:2.0:User", "a", ""), ("pr", ("", "b", "")), ("urn:my-co:2.0:User", "a", "$ref")), "a.$REF": (("", "a", "$REF"), None, None),
    "a[b eq \"]\" and c eq '\"]\"[']": (("", "a", ""), ("and", ("eq", ("", "b", ""), ("str", "]")), ("eq", ("", "c", ""), ("str", '"]"['))), None),
    "a[b pr].C": (("", "a", ""), ("pr", ("", "b", "")), ("", "a", "C")), "a[b pr].c": (("", "a", ""), ("pr", ("", "b", "")), ("", "a", "c")),
    "a[b pr].cc": (("", "a", ""), ("pr", ("", "b", "")), ("", "a", "cc")),
}
BAD_PATHS = {"": 111, "a b": 111, "a.b.c": 111, "a,b": 111, "a[b pr": 300, "a b pr]": 300, "a]b pr[": 300, "a[b pr][c pr]": 300, "a[b[c pr]]": 300, "[b pr]": 111, "a[]": 110,
             "a[b zz 5]": 105, "a[b eq x]": 112, "a.b[c pr]": 33, "a[b pr].c d": 111, "a[b pr].c.d.e": 111, "a[b pr].x.c": 33, '"a"': 111, "a[b eq]": 104, "a pr": 111,
             "not a[b pr]": 300, "a pr and b[c pr]": 300, "b[c pr] d": 300, "a[b pr]..c": 111, "a[b pr].": 111, "a[b pr]x": 300, "a[b pr]a.x": 300, "a.": 111, ".a": 111, "a[b pr].c.": 111, "a[b pr].c[d pr]": 300, "a[b pr] ": 300, "a[b pr and]": 104, "a[b co 5]": 113, "a[b pr].urn:x:c": 111, "urn:x:a[b pr].urn:x:c": 111}


def c26(ctx):
    I = ctx.interp(native_cont=False)
    PP, Fl = ctx.get(I, "src.data.path:PatchPath"), ctx.get(I, F)
    Rep = ctx.get(I, "src.data.container:AttrRep")
    C = {k: ctx.get(I, OP + n) for k, n in CLS.items()}
    ctx.rule("a path is an attribute, or an attribute with one filter on its items and possibly one of their sub-attributes; the parts are the ones the text names; anything else is rejected")
    rep = lambda I, r: None if I.norm(r) is None else tuple(I.norm(I.getattr(r, n)) for n in ("schema", "attr", "sub_attr"))

    def describe(I, p):
        f = I.norm(I.getattr(p, "complex_filter"))
        t = None
        if f is not None:
            t = tree(I, I.getattr(f, "operator"), C)
        return rep(I, I.getattr(p, "attr_rep")), t, rep(I, I.getattr(p, "complex_filter_attr_rep"))

    def good(I):
        t = pick(I, "path", PATHS)
        p, iss = pair(I, meth(I, PP, "parse", t))
        same_issues(I, iss, [], f"path {t!r}")
        expect(isinstance(p, AObj) and p.cls is PP, f"path {t!r} gives {p!r}")
        a, f, s = PATHS[t]
        want = (a, None if f is None else ("complex", a, f), s)
        got = describe(I, p)
        expect(got == want, f"path {t!r} is read as {got}, denotes {want}")
        u = pick(I, "other path", PATHS)
        q, _ = pair(I, meth(I, PP, "parse", u))
        e = I.eq(p, q)
        like = lambda x, y: x == y if x is None or y is None else x[1].lower() == y[1].lower() and x[2].lower() == y[2].lower() and (not x[0] or not y[0] or x[0].lower() == y[0].lower())
        w = like(PATHS[t][0], PATHS[u][0]) and PATHS[t][1] == PATHS[u][1] and like(PATHS[t][2], PATHS[u][2])
        if w and PATHS[t][1] is not None and PATHS[t][0] != PATHS[u][0]:
            raise Skip()        # equal filters on differently qualified attributes
        expect(e == w, f"paths {t!r} and {u!r} are {'equal' if e else 'different'}")
    ctx.case(I, "paths", good, max_paths=2000)

    def bad(I):
        t = pick(I, "path", BAD_PATHS)
        p, iss = pair(I, meth(I, PP, "parse", t))
        es, ts = entries(I, iss)
        expect(es, f"path {t!r} is accepted")
        expect(same(I, p, I.Invalid), f"path {t!r} is rejected, yet gives {p!r}")
        expect(any(e[1] == BAD_PATHS[t] for e in es) and all(e[2] for e in es), f"path {t!r} is rejected with {es}, expected {BAD_PATHS[t]}")
    ctx.case(I, "malformed paths", bad)

    def lengths(I):
        n = pick(I, "length", list(range(1, 24)))
        q = "q" * n
        t = f'{q}[b eq "x" and c eq "yy"].{q}'
        p, iss = pair(I, meth(I, PP, "parse", t))
        same_issues(I, iss, [], f"path {t!r}")
        want = (("", q, ""), ("complex", ("", q, ""), ("and", ("eq", ("", "b", ""), ("str", "x")), ("eq", ("", "c", ""), ("str", "yy")))), ("", q, q))
        expect(describe(I, p) == want, f"path {t!r} is read as {describe(I, p)}")
    ctx.case(I, "names of any length", lengths)

    def build(I):
        """the constructor refuses parts that do not belong together"""
        R = lambda s="", a="", u="": I.call(Rep, [], {"schema": s, "attr": a, "sub_attr": u})
        reps = {"a": ("", "a", ""), "A": ("", "A", ""), "b": ("", "b", ""), "a.x": ("", "a", "x"), "urn:a": ("urn:x", "a", ""), "urn:y:a": ("urn:y", "a", "")}
        n = pick(I, "attribute", reps)
        f = pick(I, "filter", ["none", "a", "b", "A", "urn:a", "comparison", "and"])
        s = pick(I, "sub-attribute", [None, "a.y", "A.y", "b.y", "a", "urn:a.y"])
        subs = {"a.y": ("", "a", "y"), "A.y": ("", "A", "y"), "b.y": ("", "b", "y"), "a": ("", "a", ""), "urn:a.y": ("urn:x", "a", "y")}
        cmp_ = I.call(C["eq"], [R(a="k"), "x"], {})
        fl = None
        if f == "comparison":
            fl = I.call(Fl, [cmp_], {})
        elif f == "and":
            fl = I.call(Fl, [I.call(C["and"], [cmp_, cmp_], {})], {})
        elif f != "none":
            fl = I.call(Fl, [I.call(C["complex"], [R(*reps[f]), cmp_], {})], {})
        same_top = lambda x, y: x[1].lower() == y[1].lower() and (not x[0] or not y[0] or x[0].lower() == y[0].lower())
        ok = True
        if reps[n][2] and (f != "none" or s):
            ok = False
        if s and (not subs[s][2] or not same_top(subs[s], reps[n])):
            ok = False
        if f in ("comparison", "and") or f != "none" and f in reps and (not same_top(reps[f], reps[n]) or reps[n][2]):
            ok = False
        try:
            p = I.call(PP, [], {"attr_rep": R(*reps[n]), "complex_filter": fl, "complex_filter_attr_rep": R(*subs[s]) if s else None})
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError", f"path of {n}, filter {f}, sub-attribute {s}: raises {I.exc_name(e)}")
            expect(not ok, f"path of {n}, filter {f}, sub-attribute {s} is refused")
            return
        expect(ok, f"path of {n}, filter {f}, sub-attribute {s} is accepted")
        expect(rep(I, I.getattr(p, "attr_rep")) == reps[n] and I.norm(I.getattr(p, "complex_filter")) is (fl if fl is None else I.norm(fl))
               and rep(I, I.getattr(p, "complex_filter_attr_rep")) == (subs[s] if s else None), f"path of {n}, filter {f}, sub-attribute {s}: parts are changed")
    ctx.case(I, "construction", build, max_paths=4000)
