"""C18: list responses."""
from .common import *
from .schemas import plain, plain_same
from .endpoints import Fix, RV, CORE, EXT, FULL, fake_checker, unpack, judge_body, lower

URN = "urn:ietf:params:scim:api:messages:2.0:ListResponse"

NUM = '''
def gt(a, b):
    return a > b
def lt(a, b):
    return a < b
def ne(a, b):
    return a != b
def positive(a):
    return a > 0
def nonzero(a):
    return a != 0
'''
FAKES = '''
from src.filter import Filter
from src.sorter import Sorter

class F(Filter):
    def __init__(self):
        pass
    def __call__(self, data, schema, strict=True):
        return matches(data, schema, strict)

class S(Sorter):
    def __init__(self):
        pass
    def __call__(self, data, schema):
        return ordered(data, schema)
'''


def fake(I, name, **fns):
    C = ref(I, FAKES, name)
    m = I.mods["ref:" + hashlib.sha1(FAKES.encode()).hexdigest()[:8]]
    for k, f in fns.items():
        m.vars[k] = StubM(f, k)
    return I.call(C, [], {})


class Listing:
    def __init__(self, ctx):
        self.F = Fix(ctx)
        self.I = self.F.I
        self.ctx = ctx
        ctx.setup(self.I, lambda I: (ref(I, FAKES, "F"), ref(I, NUM, "gt")))

    def R(self, n, *a):
        return self.I.truth(self.I.call(ref(self.I, NUM, n), list(a), {}))

    def schema(self, I, tag, urn, exts=()):
        """a resource schema known by its contract: findings per resource are given in self.marks"""
        ctx = self.ctx
        At = ctx.get(I, "src.data.attributes:Attribute")
        s = I.call(ctx.get(I, "src.data.schemas:ResourceSchema"), [urn], {"attrs": I.new_list([
            I.call(At, [], {"name": "alpha", "type_": ctx.get(I, "src.data.type:String"), "required": True})]), "name": tag})
        for e in exts:
            meth(I, s, "with_extension", I.call(ctx.get(I, "src.data.schemas:SchemaExtension"), [e], {"attrs": I.new_list([])}))

        def dump(I_, args, kw):
            v = I_.norm(args[0] if args else kw.get("data"))
            k = I_.norm(I_.getitem(v, I_.call(self.F.Rep, [], {"attr": "mark"}))) if isinstance(v, AObj) and v.cls.name == "SCIMDataContainer" else None
            I_.R.events.append(("dumped", tag, k, v))
            o = self.marks.get(k, "fine") if isinstance(k, str) else "rejected"
            if o == "rejected":
                return (I_.Invalid, issues_of(I_, ((), "R", True)))
            c = I_.call(self.F.SC, [jd(I_, {x: y for x, y in self.docs[k].items()})], {})
            return (c, issues_of(I_, *{"fine": [], "remark": [(("alpha",), "N", False)], "finding": [(("alpha",), "T", True)]}[o]))
        s.attrs["dump"] = StubM(dump, "dump")
        return s

    def doc(self, i):
        return {"schemas": [CORE], "id": f"id{i}", "alpha": f"al{i}"}


ENDPOINTS = ("ServerRootResourceGET", "ResourcesGET", "SearchRequestPOST")


def build(ctx, L, one):
    out = {}
    for e in ENDPOINTS:
        C = ctx.get(L.I, RV + e)
        out[e] = ctx.setup(L.I, lambda I: I.call(C, [L.F.config], {"resource_schema": one} if e == "ResourcesGET"
                                                 else {"resource_schemas": I.new_list([one])}))
    return out


def spec(L, I, d, count, start, n, outs, filt, srt, pres, presence_default):
    """findings of a list response.  d: {name: value} of the body (well typed), n: number of resources (None: no list)."""
    want = []
    T, S, P = d.get("totalResults"), d.get("startIndex"), d.get("itemsPerPage")
    for i, o in enumerate(outs):
        want += {"fine": [], "remark": [(("body", "Resources", i, "alpha"), "N", False)], "finding": [(("body", "Resources", i, "alpha"), "T", True)],
                 "rejected": [(("body", "Resources", i), "R", True)]}[o]
    if P is not None and n is not None and L.R("ne", P, n):
        want += [(("body", "itemsPerPage"), 11, False), (("body", "Resources"), 11, False)]
    if S is not None and L.R("nonzero", S) and L.R("gt", S, start):
        want.append((("body", "startIndex"), 24, False))
    n = n or 0
    if T is None:
        want.append((("body", "totalResults"), 15, True))
    else:
        if L.R("lt", T, n):
            want.append((("body", "Resources"), 22, False))
        if count is None and L.R("gt", T, n):
            want.append((("body", "Resources"), 23, False))
        if count is not None and L.R("lt", count, n):
            want.append((("body", "Resources"), 21, False))
        if count is not None and L.R("positive", count) and L.R("gt", T, n):
            if S is None:
                want.append((("body", "startIndex"), 15, True))
            if P is None:
                want.append((("body", "itemsPerPage"), 15, True))
    if any(w[0][:2] == ("body", "Resources") for w in want):
        return want
    for i in range(n):
        if filt is not None and not filt[i]:
            want.append((("body", "Resources", i), 25, False))
    if srt is False:
        want.append((("body", "Resources"), 26, False))
    if pres is None:
        want += presence_default
    else:
        for i in range(n):
            if pres == "content":
                want.append((("body", "Resources", i, "beta"), "C", False))
    return want


def lists(ctx, L, endpoints=ENDPOINTS):
    I = L.I
    full = ctx.tier == "thorough"
    one = ctx.setup(I, lambda I: L.schema(I, "one", CORE))
    V = build(ctx, L, one)
    SC = L.F.SC

    def run(I, ep, L, body, status, count, start, **kw):
        if count is not None:
            kw["count"] = count
        if start is not None:
            kw["start_index"] = start
        h = I.new_dict([("X", opaque(I, "header", kinds=["str"]))])
        r = meth(I, V[ep], "dump_response", status_code=status, body=body, headers=h, **kw)
        data, get, iss = unpack(I, r, ep)
        expect(same(I, get("headers"), h), f"{ep}: headers become {get('headers')!r}")
        return get, iss

    def numbers(I):
        cases = [(n, endpoints[0], t, s_, p) for n in (None, 0, 1, 2) for t in (1, 0) for s_ in (1, 0, 2) for p in (1, 0, 2)
                 if full or s_ + p < 3 and (s_ != 2 or n == 1)]
        cases += [(1, e, 1, s_, s_) for e in endpoints[1:] for s_ in (1, 0)] if not full else \
            [(n, e, t, s_, p) for e in endpoints[1:] for (n, _, t, s_, p) in cases]
        n, ep, *present = pick(I, "case", cases)
        L.marks, L.docs = {}, {f"r{i}": L.doc(i) for i in range(2)}
        d = {}
        for k, w in zip(("totalResults", "startIndex", "itemsPerPage"), present):
            w = ("absent", "number", "null")[w]
            if w == "number":
                d[k] = opaque(I, k, kinds=["int"])
            elif w == "null":
                d[k] = None
        count = opaque(I, "count", kinds=["int"]) if pick(I, "count", [True, False]) else None
        start = opaque(I, "start index", kinds=["int"]) if pick(I, "start", [True, False]) else None
        body = {"schemas": [URN], **d}
        if n is not None:
            body["Resources"] = [{"mark": f"r{i}"} for i in range(n)]
        status = opaque(I, "status", kinds=["int"])
        get, iss = run(I, ep, L, jd(I, body), status, count, start)
        want = [] if I.eq(status, 200) else [(("status",), 16, False)]
        want += spec(L, I, d, count, 1 if start is None else start, n, ["fine"] * (n or 0), None, None, None, [])
        what = f"{ep}, {n} resources, {sorted(d)}"
        same_issues(I, iss, want, what)
        w = {**body}
        if n is not None:
            w["Resources"] = [L.doc(i) for i in range(n)]
        judge_body(I, get("body"), iss, w, what)
    ctx.case(I, "numbers", numbers, max_paths=60000)

    def shapes(I):
        L.marks, L.docs = {}, {"r0": L.doc(0)}
        sh = pick(I, "body", ["none", "text", "list", "Resources text", "Resources null", "Resources object", "total text", "total boolean", "start text", "items text",
                              "no schemas", "wrong schemas", "other case"])
        ep = pick(I, "endpoint", endpoints)
        T = opaque(I, "total", kinds=["int"])
        body = {"schemas": [URN], "totalResults": 1, "startIndex": 1, "itemsPerPage": 1, "Resources": [{"mark": "r0"}]}
        want = []
        if sh.startswith("Resources"):
            body["Resources"] = {"Resources text": "x", "Resources null": None, "Resources object": {"mark": "r0"}}[sh]
            want = [(("body", "Resources"), 2, True)]
        elif sh == "total text":
            body["totalResults"] = "1"
            want = [(("body", "totalResults"), 2, True)]
        elif sh == "total boolean":
            body["totalResults"] = True
            want = [(("body", "totalResults"), 2, True)]
        elif sh == "start text":
            body["startIndex"] = "1"
            want = [(("body", "startIndex"), 2, True)]
        elif sh == "items text":
            body["itemsPerPage"] = "5"
            want = [(("body", "itemsPerPage"), 2, True)]
        elif sh == "no schemas":
            del body["schemas"]
            want = [(("body", "schemas"), 15, True)]
        elif sh == "wrong schemas":
            body["schemas"] = ["urn:x:other"]
            want = [(("body", "schemas"), 27, False), (("body", "schemas"), 28, False)]
        elif sh == "other case":
            body = {k.upper(): v for k, v in body.items()}
        b = jd(I, body)
        if sh in ("none", "text", "list"):
            b = {"none": None, "text": "x", "list": I.new_list([])}[sh]
            want = [(("body",), 15 if sh == "none" else 2, True)]
        status = opaque(I, "status", kinds=["int"])
        get, iss = run(I, ep, L, b, status, None, None)
        what = f"{ep}, body: {sh}"
        if sh in ("none", "text", "list"):
            es, _ = entries(I, iss)
            expect([e for e in es if e[0] != ("status",)] == want, f"{what}: reported {es}, expected {want}")
            expect(get("body") is None, f"{what}: usable body")
            return
        if not I.eq(status, 200):
            want.append((("status",), 16, False))
        same_issues(I, iss, want, what)
        judge_body(I, get("body"), iss, {**{k.lower(): v for k, v in body.items()}, "resources": [L.doc(0)]}, what)
    ctx.case(I, "shapes", shapes)

    def content(I):
        n = pick(I, "resources", [1, 2])
        outs = [pick(I, f"resource {i}", ["fine", "remark", "finding", "rejected"]) for i in range(n)]
        ep = pick(I, "endpoint", endpoints if all(o == "fine" for o in outs) else endpoints[:1])
        L.marks = {f"r{i}": o for i, o in enumerate(outs)}
        L.docs = {f"r{i}": L.doc(i) for i in range(n)}
        missing = n == 1 and outs == ["fine"] and pick(I, "required attribute missing", [False, True])
        if missing:
            del L.docs["r0"]["alpha"]
        fine = all(o == "fine" for o in outs)
        filt = [pick(I, f"filter matches {i}", [True, False]) for i in range(n)] if pick(I, "filter", [True, False]) else None
        srt = pick(I, "sorter", [None, True, False]) if n == 2 else pick(I, "sorter", [None, True])
        if not fine and filt is not None and not all(filt):
            raise Skip()
        pres = pick(I, "checker", [None, "content", "fine"])
        kw = {}

        def matches(I_, args, k):
            c = I_.norm(args[0])
            i = I_.norm(I_.getitem(c, I_.call(L.F.Rep, [], {"attr": "id"})))
            I_.R.events.append(("filter", i, I_.norm(args[1]), I_.norm(args[2])))
            return filt[int(i[2:])]

        def ordered(I_, args, k):
            I_.R.events.append(("sort", I_.norm(args[0]), I_.norm(args[1])))
            xs = list(I_.items_of(args[0]))
            return I_.new_list(xs if srt else xs[::-1])
        if filt is not None:
            kw["filter_"] = fake(I, "F", matches=matches)
        if srt is not None:
            kw["sorter"] = fake(I, "S", ordered=ordered)
        if pres:
            kw["presence_checker"] = I.call(fake_checker(I, [(("beta",), "C", False)] if pres == "content" else []), [], {})
        body = {"schemas": [URN], "totalResults": n, "itemsPerPage": n, "Resources": [{"mark": f"r{i}"} for i in range(n)]}
        get, iss = run(I, ep, L, jd(I, body), 200, None, None, **kw)
        want = spec(L, I, body, None, 1, n, outs, filt, srt, pres, [(("body", "Resources", 0, "alpha"), 15, True)] if missing else [])
        what = f"{ep}, resources {outs}, filter {filt}, sorted {srt}, checker {pres}"
        same_issues(I, iss, want, what)
        judge_body(I, get("body"), iss, {**body, "Resources": [L.docs[f"r{i}"] for i in range(n)]}, what)
        for e in I.R.events:
            if e[0] == "filter":
                expect(e[2] is one, f"{what}: filter is applied with another schema")
                expect(same(I, e[3], False), f"{what}: filter is applied strictly")
            elif e[0] == "sort":
                ss = [I.norm(x) for x in I.items_of(e[2])] if not isinstance(e[2], AObj) else [e[2]]
                expect(all(x is one for x in ss) and len(ss) in (1, n), f"{what}: sorted with schemas {ss}")
            elif e[0] == "presence":
                expect(e[2] is I.norm(I.getattr(one, "attrs")) and same(I, e[3], "RESPONSE"), f"{what}: presence judged for other attributes or direction")
    ctx.case(I, "content", content, max_paths=60000)

    # ---------------------------------------------------------------- several resource types
    two = ctx.setup(I, lambda I: (L.schema(I, "one", "urn:x:One", ["urn:x:E1"]), L.schema(I, "two", "urn:x:Two", ["urn:x:E2"]),
                                  L.schema(I, "three", "urn:x:E2")))
    C = ctx.get(I, RV + "ServerRootResourceGET")
    CS = ctx.get(I, RV + "SearchRequestPOST")
    VS = ctx.setup(I, lambda I: {"ServerRootResourceGET": I.call(C, [L.F.config], {"resource_schemas": I.new_list(list(two))}),
                                 "SearchRequestPOST": I.call(CS, [L.F.config], {"resource_schemas": I.new_list(list(two))})})
    SCH = {"one": (["urn:x:One"], 0), "one, other case": (["URN:X:one"], 0), "one extended": (["urn:x:One", "urn:x:E1"], 0),
           "two": (["urn:x:Two"], 1), "two extended": (["urn:X:e2", "urn:x:Two"], 1), "three": (["urn:x:E2"], 1),
           "mixed": (["urn:x:One", "urn:x:Two"], None), "unknown": (["urn:x:Four"], None), "one and unknown": (["urn:x:One", "urn:x:Four"], None),
           "none": ([], None), "absent": (None, None), "text": ("urn:x:One", None), "numbers": ([5], None)}

    def types(I):
        n = pick(I, "resources", [1, 2])
        names = [pick(I, f"schemas of resource {i}", SCH if i == 0 else ["one", "two", "unknown"]) for i in range(n)]
        ep = pick(I, "endpoint", list(VS))
        L.marks, L.docs, res = {}, {}, []
        want = []
        for i, x in enumerate(names):
            ss, w = SCH[x]
            L.docs[f"r{i}"] = {"alpha": f"al{i}", "id": f"id{i}", **({"schemas": ss} if ss is not None else {})}
            res.append({"mark": f"r{i}", **({"Schemas": ss} if ss is not None else {})})
            if w is None:
                want.append((("body", "Resources", i), 27, True))
        kw = {}
        seen = []
        if pick(I, "filter", [True, False]):
            def matches(I_, args, k):
                seen.append(I_.norm(args[1]))
                return True
            kw["filter_"] = fake(I, "F", matches=matches)
        elif pick(I, "sorter and checker", [True, False]):
            kw["sorter"] = fake(I, "S", ordered=lambda I_, a, k: (I_.R.events.append(("sort", a[1])), a[0])[1])
            kw["presence_checker"] = I.call(fake_checker(I, []), [], {})
        body = {"schemas": [URN], "totalResults": n, "Resources": res}
        r = meth(I, VS[ep], "dump_response", status_code=200, body=jd(I, body), **kw)
        data, get, iss = unpack(I, r, ep)
        what = f"{ep}, resources of {names}"
        same_issues(I, iss, want, what)
        dumped = [(e[1], e[2]) for e in I.R.events if e[0] == "dumped"]
        exp = [(("one", "two", "three")[SCH[x][1]], f"r{i}") for i, x in enumerate(names) if SCH[x][1] is not None]
        expect(dumped == exp, f"{what}: processed as {dumped}, expected {exp}")
        own = [two[SCH[y][1]] for y in names] if not want else []
        for e in I.R.events if own else ():
            if e[0] == "sort":
                ss = I.norm(e[1])
                ss = [I.norm(x) for x in I.items_of(ss)] if not isinstance(ss, AObj) else [ss]
                expect(len(ss) == n and all(x is y for x, y in zip(ss, own)) or len(ss) == 1 and all(x is ss[0] for x in own), f"{what}: sorted with other schemas")
        if own and "presence_checker" in kw:
            ps = [e[2] for e in I.R.events if e[0] == "presence"]
            expect(len(ps) == n and all(p is I.norm(I.getattr(x, "attrs")) for p, x in zip(ps, own)), f"{what}: presence is judged with other schemas")
        if own and "filter_" in kw:
            expect([x is two[SCH[y][1]] for x, y in zip(seen, names)] == [True] * n, f"{what}: filter is applied with other schemas")
        judge_body(I, get("body"), iss, {**body, "Resources": [L.docs[f"r{i}"] for i in range(n)]}, what)
    ctx.case(I, "several resource types", types, max_paths=20000)

    # ---------------------------------------------------------------- rules one by one
    LR = ctx.get(I, "src.assets.schemas.list_response:ListResponse")
    VN, VP, VI, VF, VO, VA = (ctx.get(I, RV + n) for n in (
        "validate_number_of_resources", "validate_pagination_info", "validate_start_index_consistency", "validate_resources_filtered",
        "validate_resources_sorted", "validate_resources_attributes_presence"))
    lr = ctx.setup(I, lambda I: I.call(LR, [I.new_list([one])], {}))

    def rules(I):
        n = pick(I, "resources", [0, 1, 2])
        res = I.new_list([I.call(SC, [jd(I, L.doc(i))], {}) for i in range(n)])
        T = opaque(I, "total", kinds=["int"])
        count = opaque(I, "count", kinds=["int"]) if pick(I, "count", [True, False]) else None
        w = []
        if L.R("lt", T, n):
            w.append(((), 22, False))
        if count is None and L.R("gt", T, n):
            w.append(((), 23, False))
        if count is not None and L.R("lt", count, n):
            w.append(((), 21, False))
        same_issues(I, I.call(VN, [], {"count": count, "total_results": T, "resources": res}), w, "number of resources")
        S = {"missing": I.Missing, "null": None, "number": opaque(I, "s", kinds=["int"])}[pick(I, "startIndex", ["missing", "null", "number"])]
        P = {"missing": I.Missing, "null": None, "number": opaque(I, "p", kinds=["int"])}[pick(I, "itemsPerPage", ["missing", "null", "number"])]
        w = []
        if count is not None and L.R("positive", count) and L.R("gt", T, n):
            w = [((k,), 15, True) for k, v in (("startIndex", S), ("itemsPerPage", P)) if v is None or v is I.Missing]
        same_issues(I, I.call(VP, [], {"schema": lr, "count": count, "total_results": T, "resources": res, "start_index": S, "items_per_page": P}),
                    w, "pagination")
    ctx.case(I, "numbers one by one", rules, max_paths=10000)

    def index(I):
        a, b = opaque(I, "requested", kinds=["int"]), opaque(I, "returned", kinds=["int"])
        same_issues(I, I.call(VI, [], {"start_index": a, "start_index_body": b}), [((), 24, False)] if L.R("gt", b, a) else [], "start index")
        n = 2
        cs = [I.call(SC, [jd(I, L.doc(i))], {}) for i in range(n)]
        strict = pick(I, "strict", [True, False])
        m = [pick(I, f"matches {i}", [True, False]) for i in range(n)]

        def matches(I_, args, k):
            I_.R.events.append(("filter", I_.norm(args[0]), I_.norm(args[1]), I_.norm(args[2])))
            return m[cs.index(I_.norm(args[0]))]
        ss = [two[0], two[1]]
        iss = I.call(VF, [], {"resources": I.new_list(list(cs)), "filter_": fake(I, "F", matches=matches), "resource_schemas": I.new_list(ss), "strict": strict})
        same_issues(I, iss, [((i,), 25, False) for i in range(n) if not m[i]], "filtering")
        for e in I.R.events:
            if e[0] == "filter":
                expect(e[2] is ss[cs.index(e[1])] and same(I, e[3], strict), "filter is applied with another schema or strictness")
        srt = pick(I, "sorted", [True, False])
        iss = I.call(VO, [], {"sorter": fake(I, "S", ordered=lambda I_, a, k: I_.new_list(list(I_.items_of(a[0]))[::1 if srt else -1])),
                              "resources": I.new_list(list(cs)), "resource_schemas": I.new_list(ss)})
        same_issues(I, iss, [] if srt else [((), 26, False)], "sorting")
        iss = I.call(VA, [], {"presence_checker": I.call(fake_checker(I, [(("beta",), "C", False)]), [], {}), "resources": I.new_list(list(cs)),
                              "resource_schemas": I.new_list(ss)})
        same_issues(I, iss, [((i, "beta"), "C", False) for i in range(n)], "presence in resources")
        ps = [e for e in I.R.events if e[0] == "presence"]
        expect([e[1] for e in ps] == cs and all(e[2] is I.norm(I.getattr(s, "attrs")) for e, s in zip(ps, ss)), "presence is judged with other schemas")
    ctx.case(I, "content one by one", index, max_paths=10000)


def c18(ctx):
    L = Listing(ctx)
    ctx.rule("list response: every resource is processed by the schema its 'schemas' name; totals, page size, start index and pagination data agree with the "
             "resources and the request; then every resource matches the filter (leniently), the order is the sorter's, and presence is judged per resource")
    lists(ctx, L)
