"""C03: the laws of the issue accumulator."""
from .common import *

MOD = "src.error:ValidationIssues"
LOCS = [(), ("a",), ("a", "b"), ("c",), ("a", "b", "d")]
CODES = [1, 2]


class Model:
    """Reference semantics: a list of (location, code, blocking)."""

    def __init__(self, es=()):
        self.es = list(es)

    def add(self, loc, code, proceed):
        self.es.append((loc, code, not proceed))

    def merge(self, o, pre=()):
        self.es += [(pre + l, c, s) for l, c, s in o.es]

    def get(self, loc):
        return Model([(l[len(loc):], c, s) for l, c, s in self.es if l[:len(loc)] == loc])

    def pop(self, loc, code):
        self.es = [e for e in self.es if not (e[0] == loc and e[1] == code)]

    def has(self, loc):
        return any(l[:len(loc)] == loc for l, _, _ in self.es)

    def proceed(self, loc):
        return not any(s and loc[:len(l)] == l for l, _, s in self.es)

    def tree(self):
        out = {}
        for l, c, _ in self.es:
            cur = out
            for p in l:
                cur = cur.setdefault(str(p), {})
            cur.setdefault("_errors", []).append({"code": c})
        return out


def issue(I, code):
    return Stub(f"issue{code}", get={"code": lambda i: code})


def to_py(I, v):
    v = I.norm(v)
    if isinstance(v, ADict):
        if v.open is not None:
            raise SpecFail("rendering is not determined by the findings")
        return {I.norm(k): to_py(I, x) for k, x in v.items.values()}
    if isinstance(v, AList):
        return [to_py(I, x) for x in v.items]
    return v


def norm_tree(t):
    if isinstance(t, dict):
        return {k: (sorted(x["code"] for x in v) if k == "_errors" else norm_tree(v)) for k, v in t.items()}
    return t


def queries(I, obj, m, label, locs=LOCS):
    h = I.truth(meth(I, obj, "has_issues"))
    expect(h == bool(m.es), f"{label}: has_issues() is {h}, findings are {m.es}")
    p = I.truth(meth(I, obj, "can_proceed"))
    expect(p == m.proceed(()), f"{label}: can_proceed() is {p}, findings are {m.es}")
    for l in locs:
        h = I.truth(meth(I, obj, "has_issues", l))
        expect(h == m.has(l), f"{label}: has_issues({l}) is {h}, findings are {m.es}")
        p = I.truth(meth(I, obj, "can_proceed", l))
        expect(p == m.proceed(l), f"{label}: can_proceed({l}) is {p}, findings are {m.es}")
    l1, l2 = locs[1], locs[3 if len(locs) > 3 else 0]
    p = I.truth(meth(I, obj, "can_proceed", l1, l2))
    expect(p == (m.proceed(l1) and m.proceed(l2)), f"{label}: can_proceed of two locations is {p}, findings are {m.es}")
    h = I.truth(meth(I, obj, "has_issues", l1, l2))
    expect(h == (m.has(l1) or m.has(l2)), f"{label}: has_issues of two locations is {h}, findings are {m.es}")
    for n in (3, 4):
        for k in range(len(locs)):
            ls = [locs[(k + j) % len(locs)] for j in range(n)]
            p = I.truth(meth(I, obj, "can_proceed", *ls))
            expect(p == all(map(m.proceed, ls)), f"{label}: can_proceed of {n} locations is {p}, findings are {m.es}")
            h = I.truth(meth(I, obj, "has_issues", *ls))
            expect(h == any(map(m.has, ls)), f"{label}: has_issues of {n} locations is {h}, findings are {m.es}")


def rendering(I, obj, m, label):
    t = norm_tree(to_py(I, meth(I, obj, "to_dict")))
    expect(t == norm_tree(m.tree()), f"{label}: rendered as {t}, findings are {m.es}")


def filled(I, C, n, tag, locs=LOCS[:4]):
    obj, m = new(I, C), Model()
    for k in range(n):
        loc = pick(I, f"{tag} location {k}", locs)
        code = pick(I, f"{tag} code {k}", CODES)
        proceed = pick(I, f"{tag} non-blocking {k}", [True, False])
        I.call(I.getattr(obj, "add"), [], {"issue": issue(I, code), "proceed": proceed, "location": loc})
        m.add(loc, code, proceed)
    return obj, m


def c03(ctx):
    I = ctx.interp(native_issues=False)
    C = ctx.get(I, MOD)
    ctx.rule("adding, merging under a location, narrowing and removing findings act on the multiset of "
             "(location, code, blocking) exactly as the reference semantics; queries and rendering read it back")

    def adds(I):
        obj, m = filled(I, C, 2, "added")
        queries(I, obj, m, "after add")
        rendering(I, obj, m, "after add")
    ctx.case(I, "add", adds)

    def add_default(I):
        obj, m = new(I, C), Model()
        I.call(I.getattr(obj, "add"), [issue(I, 1), pick(I, "p", [True, False])], {})
        expect(I.truth(meth(I, obj, "has_issues")), "finding added without a location is lost")
    ctx.case(I, "add without location", add_default)

    def merge(I):
        a, ma = filled(I, C, 1, "receiver", LOCS[:3])
        b, mb = filled(I, C, 1, "merged", LOCS[:3])
        pre = pick(I, "merge location", [None, (), ("a",), ("c",)])
        kw = {"issues": b}
        if pre is not None:
            kw["location"] = pre
        I.call(I.getattr(a, "merge"), [], kw)
        ma.merge(mb, pre or ())
        queries(I, a, ma, "after merge")
        rendering(I, a, ma, "after merge")
        queries(I, b, mb, "merged operand", LOCS[:3])
    ctx.case(I, "merge", merge)

    def merge_two(I):
        a = new(I, C)
        b, mb = filled(I, C, 2, "merged", LOCS[:3])
        I.call(I.getattr(a, "merge"), [b], {"location": ("c",)})
        ma = Model()
        ma.merge(mb, ("c",))
        queries(I, a, ma, "after merge of two", [(), ("c",), ("c", "a"), ("a",), ("c", "a", "b")])
        rendering(I, a, ma, "after merge of two")
    ctx.case(I, "merge two findings", merge_two)

    def merge_indep(I):
        a, ma = filled(I, C, 1, "receiver", LOCS[:2])
        b, mb = filled(I, C, 1, "merged", LOCS[:2])
        meth(I, a, "merge", b)
        ma.merge(mb)
        I.call(I.getattr(a, "add"), [], {"issue": issue(I, 2), "proceed": False, "location": ("a",)})
        ma.add(("a",), 2, False)
        queries(I, b, mb, "operand after the receiver changed", LOCS[:3])
        rendering(I, b, mb, "operand after the receiver changed")
        queries(I, a, ma, "receiver", LOCS[:3])
    ctx.case(I, "merge does not alias", merge_indep)

    def get(I):
        a, ma = filled(I, C, 2, "state")
        loc = pick(I, "narrowing location", [(), ("a",), ("a", "b")])
        g = meth(I, a, "get", loc)
        queries(I, g, ma.get(loc), f"get({loc})", [(), ("b",), ("a",), ("a", "b")])
        rendering(I, g, ma.get(loc), f"get({loc})")
        queries(I, a, ma, "source of get")
    ctx.case(I, "get", get)

    def get_merge(I):
        a, ma = filled(I, C, 1, "state", LOCS[:3])
        loc = pick(I, "narrowing location", [(), ("a",)])
        t = new(I, C)
        I.call(I.getattr(t, "merge"), [meth(I, a, "get", loc)], {"location": ("c",)})
        mt = Model()
        mt.merge(ma.get(loc), ("c",))
        queries(I, t, mt, f"merge of get({loc})", [(), ("c",), ("c", "b"), ("c", "a"), ("c", "a", "b")])
        rendering(I, t, mt, f"merge of get({loc})")
    ctx.case(I, "get then merge", get_merge)

    def pop(I):
        a, ma = filled(I, C, 2, "state", LOCS[:3])
        loc = pick(I, "removal location", LOCS[:3])
        code = pick(I, "removed code", CODES)
        had = any(l == loc and c == code for l, c, _ in ma.es)
        at = any(l == loc for l, c, _ in ma.es)
        p = meth(I, a, "pop", loc, code)
        ma.pop(loc, code)
        queries(I, a, ma, f"after pop({loc}, {code})", LOCS[:4])
        rendering(I, a, ma, f"after pop({loc}, {code})")
        ph = I.truth(meth(I, p, "has_issues"))
        if had:
            expect(ph, f"pop({loc}, {code}) removed findings but its result reports none")
        if not at and loc != ():
            expect(not ph, f"pop({loc}, {code}) found nothing there but its result reports findings")
    ctx.case(I, "pop", pop)

    def merge_pop(I):
        """two findings meet at one location through a merge, then one is removed on either side"""
        L2 = [("p", "x"), ("x",)]
        a, ma = filled(I, C, 1, "receiver", L2)
        b, mb = filled(I, C, 1, "merged", L2[1:])
        pre = pick(I, "merge location", [(), ("p",)])
        I.call(I.getattr(a, "merge"), [b], {"location": pre})
        ma.merge(mb, pre)
        side = pick(I, "removed from", ["receiver", "operand"])
        code = pick(I, "removed code", CODES)
        if side == "receiver":
            loc = pick(I, "removal location", L2)
            meth(I, a, "pop", loc, code)
            ma.pop(loc, code)
        else:
            meth(I, b, "pop", ("x",), code)
            mb.pop(("x",), code)
        locs = [(), ("p",), ("x",), ("p", "x"), ("p", "x", "y")]
        for o, m, n in ((a, ma, "receiver"), (b, mb, "operand")):
            queries(I, o, m, f"{n} after merge and pop on the {side}", locs)
            rendering(I, o, m, f"{n} after merge and pop on the {side}")
    ctx.case(I, "merge then pop", merge_pop)

    def chain(I):
        a, ma = filled(I, C, 1, "inner", [(), ("x",)])
        b, mb = new(I, C), Model()
        I.call(I.getattr(b, "merge"), [a], {"location": ("body",)})
        mb.merge(ma, ("body",))
        nb = pick(I, "status finding non-blocking", [True, False])
        I.call(I.getattr(b, "add"), [], {"issue": issue(I, 2), "proceed": nb, "location": ("status",)})
        mb.add(("status",), 2, nb)
        c, mc = new(I, C), Model()
        for part, to in ((("body",), ("ops", 0, "data")), (("status",), ("ops", 0, "status")), (("body",), ("ops", 1))):
            I.call(I.getattr(c, "merge"), [meth(I, b, "get", part)], {"location": to})
            mc.merge(mb.get(part), to)
        locs = [(), ("ops",), ("ops", 0), ("ops", 0, "data"), ("ops", 0, "data", "x"), ("ops", 0, "status"), ("ops", 1), ("ops", 1, "x")]
        queries(I, c, mc, "after chained merges", locs)
        rendering(I, c, mc, "after chained merges")
        queries(I, b, mb, "narrowed collection", [(), ("body",), ("status",), ("body", "x")])
    ctx.case(I, "narrow and merge, chained", chain)

    def deep(I):
        """locations as deep as a finding in a bulk operation's PATCH value"""
        full = ("body", "Operations", 3, "data", "Operations", 7, "value", "emails", 2, "value")
        a, m = new(I, C), Model()
        i, j = pick(I, "depth of the finding", range(len(full) + 1)), pick(I, "depth of the other", [0, 4, 9])
        for n, code, nb in ((i, 1, pick(I, "non-blocking", [True, False])), (j, 2, True)):
            I.call(I.getattr(a, "add"), [], {"issue": issue(I, code), "proceed": nb, "location": full[:n]})
            m.add(full[:n], code, nb)
        queries(I, a, m, "deep", [full[:n] for n in range(len(full) + 1)] + [full[:5] + ("x",), full + ("x",)])
        rendering(I, a, m, "deep")
        k = pick(I, "narrowing depth", [0, 3, 6, 9])
        queries(I, meth(I, a, "get", full[:k]), m.get(full[:k]), f"deep get({k})", [full[k:n] for n in range(k, len(full) + 1)] + [("x",), ("x", "y")])
        b, mb = new(I, C), Model()
        I.call(I.getattr(b, "merge"), [a], {"location": ("p", 1, "q")})
        mb.merge(m, ("p", 1, "q"))
        queries(I, b, mb, "deep merge", [("p", 1, "q") + full[:n] for n in range(0, len(full) + 1, 2)] + [("p",), full[:2]])
        meth(I, a, "pop", full[:i], 1)
        m.pop(full[:i], 1)
        queries(I, a, m, "deep pop", [full[:n] for n in range(0, len(full) + 1, 3)])
        rendering(I, a, m, "deep pop")
    ctx.case(I, "deep locations", deep)

    def empty(I):
        a, m = new(I, C), Model()
        queries(I, a, m, "empty")
        rendering(I, a, m, "empty")
        p = meth(I, a, "pop", ("a",), 1)
        queries(I, p, m, "pop on empty")
        queries(I, meth(I, a, "get", ("a",)), m, "get on empty")
        queries(I, a, m, "empty after pop and get")
    ctx.case(I, "empty", empty)

    def query_pure(I):
        a, m = filled(I, C, 1, "state", LOCS[:3])
        queries(I, a, m, "first")
        queries(I, a, m, "repeated")
        rendering(I, a, m, "repeated")
        rendering(I, a, m, "repeated")
    ctx.case(I, "queries do not change state", query_pure)

    def fresh(I):
        a, m = filled(I, C, 1, "state", LOCS[:3])
        queries(I, new(I, C), Model(), "another instance")
    ctx.case(I, "instances are independent", fresh)

    def render_opts(I):
        V = ctx.get(I, "src.error:ValidationError")
        a = new(I, C)
        err = I.call(I.getattr(V, "missing"), [], {})
        loc = pick(I, "location", [(), ("a",), ("a", 3)])
        I.call(I.getattr(a, "add"), [], {"issue": err, "proceed": False, "location": loc})
        msg, c = pick(I, "msg", [True, False]), pick(I, "ctx", [True, False])
        d = to_py(I, I.call(I.getattr(a, "to_dict"), [], {"msg": msg, "ctx": c}))
        for p in loc:
            expect(isinstance(d, dict) and str(p) in d, f"rendering {d} lacks the component {p!r} of {loc}")
            d = d[str(p)]
        errs = d.get("_errors") if isinstance(d, dict) else None
        expect(isinstance(errs, list) and len(errs) == 1, f"rendering has {errs} for one finding")
        want = {"code"} | ({"error"} if msg else set()) | ({"context"} if c else set())
        expect(set(errs[0]) == want, f"rendered fields {set(errs[0])}, expected {want}")
    ctx.case(I, "rendering options", render_opts)
