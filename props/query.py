"""C27: query parameters of list requests, search requests, and requests for server metadata."""
from .common import *
from .endpoints import Fix, RV, CORE, QS, unpack
from .schemas import plain

SEARCH = "urn:ietf:params:scim:api:messages:2.0:SearchRequest"


class Query:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = Fix(ctx)
        self.I = I = self.F.I
        self.Fl = ctx.get(I, "src.filter:Filter")
        self.So = ctx.get(I, "src.sorter:Sorter")

        def parse(I_, args, kw):
            a = [x for x in args if not isinstance(x, ACls)]
            e = a[0] if a else kw.get("filter_exp")
            I_.R.events.append(("filter", I_.norm(e)))
            I_.R.labels["filter"] = I_.choose("the filter text is", ["accepted", "rejected"])
            if I_.R.labels["filter"] == "rejected":
                return (I_.Invalid, issues_of(I_, ((), "FP", True)))
            f = AObj(self.Fl, I_.serial)
            self.made = f
            return (f, issues_of(I_))
        I.overrides["src.filter:Filter.parse"] = parse

    def is_filter(self, v):
        return isinstance(v, AObj) and v.cls is self.Fl

    def rep(self, I, r):
        return tuple(I.norm(I.getattr(r, n)) for n in ("schema", "attr", "sub_attr"))

    def sorter(self, I, v):
        if not (isinstance(v, AObj) and v.cls is self.So):
            return None
        return self.rep(I, I.getattr(v, "attr_rep")), I.truth(I.getattr(v, "asc"))


NAMES = {"a": ("", "a", ""), "urn:x:A.b": ("urn:x", "A", "b")}


def lists(ctx, Q):
    I = Q.I
    s = ctx.setup(I, Q.F.schema)
    V = {}
    for e in ("ServerRootResourceGET", "ResourcesGET"):
        C = ctx.get(I, RV + e)
        V[e] = ctx.setup(I, lambda I: I.call(C, [Q.F.config], {"resource_schema": s} if e == "ResourcesGET" else {"resource_schemas": I.new_list([s])}))

    def param(I, q):
        """the query string under analysis; returns ([(name, value)], findings, checks)"""
        d, want = {}, []
        if "filter" in q:
            w = pick(I, "filter", ["text", "number", "boolean", "list", "null"])
            d["filter"] = {"text": lambda: opaque(I, "filter", kinds=["str"]), "number": lambda: opaque(I, "number", kinds=["int"]), "boolean": lambda: True,
                           "list": lambda: I.new_list(["a"]), "null": lambda: None}[w]()
            if w in ("number", "boolean", "list"):
                want.append((("query_string", "filter"), 2, True))
        if "sort" in q:
            w = pick(I, "sortBy", [*NAMES, "bad name", "space before", "space after", "number", "list", "null"])
            d["sortBy"] = {"bad name": "a b", "space before": " userName", "space after": "userName ", "number": 5, "null": None}.get(w, w) if w != "list" else I.new_list(["a"])
            o = pick(I, "sortOrder", [None, "ascending", "descending"])
            if o:
                d["sortOrder"] = o
            if w in ("number", "list"):
                want.append((("query_string", "sortby"), 2, True))
            elif w in ("bad name", "space before", "space after"):
                want.append((("query_string", "sortby"), 111, True))
            if w in NAMES:
                d["__sort"] = (NAMES[w], o != "descending")
        return d, want

    INT = '''
def number(x):
    return int(x)
'''

    def query(I):
        what = pick(I, "parameters", ["filter", "sort", "filter sort", "count", "startIndex", "count startIndex"] + ["query " + k for k, v in QS.items() if isinstance(v[0], dict)]
                    + ["none", "text", "list"])
        ep = pick(I, "endpoint", list(V))
        h, body = opaque(I, "headers", kinds=["other"]), opaque(I, "body", kinds=["other"])
        if what in ("none", "text", "list"):
            given = {"none": None, "text": "filter=x", "list": I.new_list([])}[what]
            data, get, iss = unpack(I, meth(I, V[ep], "parse_request", body=body, headers=h, query_string=given), "")
            same_issues(I, iss, [(("query_string",), 15 if what == "none" else 2, True)], f"{ep}: query string {what}")
            return
        d, want = ({}, []) if what.startswith("query ") or "count" in what or "startIndex" in what else param(I, what)
        srt = d.pop("__sort", None)
        names = ()
        if what.startswith("query "):
            names = what[6:]
            d.update({k: (jd(I, v) if isinstance(v, list) else v) for k, v in QS[names][0].items()})
            want += QS[names][2]
        nums = {}
        for k in ("count", "startIndex"):
            if k in what.split():
                w = pick(I, k, ["number", "text", "list", "object", "null", "decimal"])
                v = {"number": lambda: opaque(I, k, kinds=["int"]), "text": lambda: opaque(I, k, kinds=["str"]), "list": lambda: I.new_list([]),
                     "object": lambda: I.new_dict([]), "null": lambda: None, "decimal": lambda: opaque(I, k, kinds=["float"])}[w]()
                d[k] = v
                if w in ("list", "object"):
                    want.append((("query_string", k), 2, True))
                elif w != "null":
                    nums[k] = v
        d["zz"] = "y"
        given = I.new_dict(list(d.items()))
        r = meth(I, V[ep], "parse_request", body=body, headers=h, query_string=given)
        data, get, iss = unpack(I, r, "")
        label = f"{ep}: query {({k: v for k, v in d.items() if k != 'zz'})}"
        ftext = [e[1] for e in I.R.events if e[0] == "filter"]
        if "filter" in d and kind_of(I, d["filter"]) == "str":
            expect(len(ftext) == 1 and same(I, ftext[0], d["filter"]), f"{label}: filter read from {ftext}")
            if rejected(I):
                want.append((("query_string", "filter"), "FP", True))
        else:
            expect(not ftext, f"{label}: a filter is read from {ftext}")
        for k, v in nums.items():
            try:
                nums[k] = I.norm(I.call(ref(I, INT, "number"), [v], {}))
            except AbsRaise:
                nums[k] = None
                want.append((("query_string", k), 2, True))
        same_issues(I, iss, want, label)
        expect(same(I, get("headers"), h) and same(I, get("body"), body), f"{label}: headers or body are changed")
        qs = I.norm(get("query_string"))
        expect(isinstance(qs, ADict), f"{label}: query string is {qs!r}")
        out = {I.norm(k): I.norm(v) for k, v in qs.items.values()}
        expect(out.get("zz") == "y", f"{label}: other parameters are changed")
        f = out.get("filter")
        if "filter" in d and not any(w[0] == ("query_string", "filter") for w in want) and d["filter"] is not None:
            expect(f is Q.made, f"{label}: filter is {f!r}")
        else:
            expect(not Q.is_filter(f), f"{label}: there is a filter")
            if d.get("filter") is None:
                expect(f is None, f"{label}: no filter is asked for, yet {f!r} is handed on")
        got = Q.sorter(I, out.get("sorter"))
        expect(got == srt, f"{label}: sorter {got}, expected {srt}")
        if d.get("sortBy") is None:
            expect(out.get("sorter") is None, f"{label}: no order is asked for, yet {out.get('sorter')!r} is handed on")
        for k, v in nums.items():
            if v is not None:
                expect(same(I, out.get(k), v), f"{label}: {k} becomes {out.get(k)!r}")
        if names:
            from .endpoints import judge_query
            for k in ("filter", "sorter", "zz"):
                for hk in [hk for hk, (kk, _) in qs.items.items() if I.norm(kk) == k]:
                    del qs.items[hk]
            judge_query(I, qs, given, names, label)
    ctx.case(I, "query string of list requests", query, max_paths=20000)

    P = {n: ctx.get(I, RV + n) for n in ("parse_request_filtering", "parse_request_sorting", "parse_requested_attributes")}

    def functions(I):
        q = pick(I, "parameters", ["filter", "sort", "nothing"])
        d, want = param(I, q) if q != "nothing" else ({}, [])
        srt = d.pop("__sort", None)
        given = I.new_dict(list(d.items()))
        if q != "sort":
            v, iss = pair(I, I.call(P["parse_request_filtering"], [given], {}))
            ok = "filter" in d and kind_of(I, d["filter"]) == "str"
            if ok and rejected(I):
                want.append((("query_string", "filter"), "FP", True))
                ok = False
            same_issues(I, iss, [(w[0][2:], *w[1:]) for w in want], "filter parameter")
            expect(v is Q.made if ok else not Q.is_filter(v), f"filter parameter gives {v!r}")
        if q != "filter":
            v, iss = pair(I, I.call(P["parse_request_sorting"], [given], {}))
            same_issues(I, iss, [(w[0][2:], *w[1:]) for w in want], "sort parameters")
            expect(Q.sorter(I, v) == srt, f"sort parameters give {v!r}")
    ctx.case(I, "parameters one by one", functions)


def rejected(I):
    return I.R.labels.get("filter") == "rejected"


def search(ctx, Q):
    I = Q.I
    s = ctx.setup(I, Q.F.schema)
    V = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + "SearchRequestPOST"), [Q.F.config], {"resource_schemas": I.new_list([s])}))

    def req(I):
        what = pick(I, "members", ["none", "text", "list", "empty", "attributes", "filter", "sort", "numbers", "schemas", "names"])
        h, q = opaque(I, "headers", kinds=["other"]), opaque(I, "query", kinds=["other"])
        d, want, chk, srt = {"schemas": [SEARCH]}, [], None, None
        label = f"search request with {what}"
        given = None
        if what in ("none", "text", "list"):
            given = {"none": None, "text": "x", "list": I.new_list([])}[what]
            want = [(("body",), 15 if what == "none" else 2, True)]
        elif what == "attributes":
            vals = {"absent": None, "empty": [], "names": ["a", "urn:x:A.b"], "one": ["a"], "bad name": ["a", "b c"], "text": "a", "numbers": [5]}
            inc, exc = pick(I, "attributes", vals), pick(I, "excludeAttributes", vals)
            for k, w in (("attributes", inc), ("excludeAttributes", exc)):
                if w != "absent":
                    d[k] = vals[w]
                if w == "bad name":
                    want.append((("body", k, 1), 111, True))
                elif w == "text":
                    want.append((("body", k), 2, True))
                elif w == "numbers":
                    want.append((("body", k, 0), 2, True))
            label += f" {inc}/{exc}"
            full = lambda w: w in ("names", "one")
            some = lambda w: w in ("names", "one", "bad name", "numbers")
            blocked = any(len(w[0]) == 2 for w in want)
            if not blocked and some(inc) and some(exc):
                want += [(("body", "attributes"), 30, True), (("body", "excludeAttributes"), 30, True)]
            if not want and (full(inc) or full(exc)):
                chk = ([NAMES[x] for x in (vals[inc] if full(inc) else vals[exc])], full(inc))
        elif what == "filter":
            w = pick(I, "filter", ["text", "number", "null", "upper case"])
            d["filter" if w != "upper case" else "FILTER"] = {"number": 5, "null": None}.get(w, opaque(I, "filter", kinds=["str"]))
            label += f" {w}"
            if w == "number":
                want.append((("body", "filter"), 2, True))
        elif what == "sort":
            w = pick(I, "sortBy", [*NAMES, "bad name", "space before", "number", "null", "absent"])
            if w != "absent":
                d["sortBy"] = {"bad name": "a b", "space before": " userName", "number": 5, "null": None}.get(w, w)
            o = pick(I, "sortOrder", [None, "ascending", "descending", "DESCENDING", "desc", "descendingly", "", "number"])
            if o is not None:
                d["sortOrder"] = 5 if o == "number" else o
            label += f" {w} {o}"
            if w == "number":
                want.append((("body", "sortBy"), 2, True))
            elif w in ("bad name", "space before"):
                want.append((("body", "sortBy"), 111, True))
            if o == "number":
                want.append((("body", "sortOrder"), 2, True))
            if w in NAMES:
                srt = (NAMES[w], str(o).lower() != "descending")
        elif what == "numbers":
            for k in ("count", "startIndex"):
                w = pick(I, k, ["number", "text", "absent", "boolean"])
                if w != "absent":
                    d[k] = {"number": opaque(I, k, kinds=["int"]), "text": "5", "boolean": True}[w]
                if w in ("text", "boolean"):
                    want.append((("body", k), 2, True))
        elif what == "schemas":
            w = pick(I, "schemas", ["other", "both", "other case", "text"])
            d["schemas"] = {"other": ["urn:x:other"], "both": ["urn:x:other", SEARCH], "other case": [SEARCH.upper()], "text": SEARCH}[w]
            label += " " + w
            want = {"other": [(("body", "schemas"), 27, False), (("body", "schemas"), 28, False)], "both": [(("body", "schemas"), 27, False)],
                    "other case": [], "text": [(("body", "schemas"), 2, True)]}[w]
        elif what == "names":
            d = {"SCHEMAS": [SEARCH], "COUNT": 3, "unknown": 1, "sortby": "a", "SORTORDER": "descending", "Attributes": ["a"]}
            chk, srt = ([NAMES["a"]], True), (NAMES["a"], False)
        if given is None and what != "none":
            given = jd(I, d)
        r = meth(I, V, "parse_request", body=given, headers=h, query_string=q)
        data, get, iss = unpack(I, r, "")
        if what == "filter" and rejected(I):
            want.append((("body", "filter"), "FP", True))
        same_issues(I, iss, want, label)
        expect(same(I, get("headers"), h) and same(I, get("query_string"), q), f"{label}: headers or query string are changed")
        body = get("body")
        if want:
            expect(body is None, f"{label}: findings are reported, yet the body is usable")
            return
        expect(isinstance(body, AObj), f"{label}: no body")
        item = lambda n: I.norm(I.getitem(body, n))
        c = item("presence_checker")
        if chk is None:
            expect(same(I, c, I.Missing) or c is None, f"{label}: there is a checker")
        else:
            expect(isinstance(c, AObj) and not same(I, c, I.Missing), f"{label}: no checker for the attributes")
            reps = [Q.rep(I, x) for x in I.items_of(I.getattr(c, "attr_reps"))]
            expect((reps, I.truth(I.getattr(c, "include"))) == chk, f"{label}: checker for {reps}, expected {chk}")
        got = Q.sorter(I, item("sorter"))
        expect(got == srt, f"{label}: sorter {got}, expected {srt}")
        if what == "filter":
            f = item("filter")
            expect(f is Q.made if w in ("text", "upper case") else not Q.is_filter(f), f"{label}: filter {f!r}")
        for k in ("count", "startIndex"):
            v = {x.lower(): y for x, y in d.items()}.get(k.lower(), I.Missing)
            expect(same(I, item(k), v), f"{label}: {k} becomes {item(k)!r}")
        expect(same(I, item("unknown"), I.Missing), f"{label}: unknown members are kept")
    ctx.case(I, "search request", req, max_paths=20000)


FIL = {"absent": None, "given": "F", "bad": 5}
SRT = {"absent": None, "given": "urn:x:A.b", "bad": "a b"}
ATT = {"absent": None, "given": ["a"], "bad": ["b c"], "excluded": ["a"]}
CNT = {"absent": None, "given": 7, "bad": "x"}


def together(ctx, Q):
    """every parameter keeps its meaning whatever the others are"""
    I = Q.I
    s = ctx.setup(I, Q.F.schema)
    eps = {e: ctx.setup(I, lambda I: I.call(ctx.get(I, RV + e), [Q.F.config], {"resource_schema": s} if e == "ResourcesGET" else {"resource_schemas": I.new_list([s])}))
           for e in ("ServerRootResourceGET", "ResourcesGET")}
    SR = ctx.setup(I, lambda I: I.call(ctx.get(I, "src.assets.schemas.search_request:SearchRequest"), [], {}))

    def case(I):
        f, o, a, c, x = (pick(I, n, list(t)) for n, t in (("filter", FIL), ("sortBy", SRT), ("attributes", ATT), ("count", CNT), ("startIndex", CNT)))
        ep = pick(I, "endpoint", [*eps, "search"]) if "bad" in (f, o, a, c, x) else pick(I, "endpoint", list(eps))
        d = {"filter": FIL[f], "sortBy": SRT[o], "sortOrder": "descending" if o == "given" else None, "count": CNT[c], "startIndex": CNT[x],
             "excludeAttributes" if a == "excluded" else "attributes": ATT[a]}
        d = {k: v for k, v in d.items() if v is not None}
        label = f"{ep} with {d}"
        if ep == "search":
            data, iss = pair(I, meth(I, SR, "parse", jd(I, {"schemas": [SEARCH], **d})))
            L = ()
            get = lambda n: I.norm(I.getitem(data, n))
        else:
            data, g, iss = unpack(I, meth(I, eps[ep], "parse_request", body=None, headers=None, query_string=jd(I, d)), "")
            L = ("query_string",)
            out = {I.norm(k): v for k, v in I.norm(g("query_string")).items.values()}
            get = lambda n: I.norm(out.get(n))
        if rejected(I):
            raise Skip()
        want = [(f, ("filter",), 2), (o, ("sortBy" if ep == "search" else "sortby",), 111), (a, ("attributes", 0 if ep == "search" else "b c"), 111),
                (c, ("count",), 2), (x, ("startIndex",), 2)]
        same_issues(I, iss, [(L + l, k, True) for w, l, k in want if w == "bad"], label)
        if f != "bad":
            expect(Q.is_filter(get("filter")) == (f == "given"), f"{label}: filter {get('filter')!r}")
        got = Q.sorter(I, get("sorter"))
        expect(got == ((("urn:x", "A", "b"), False) if o == "given" else None), f"{label}: sorter {got}")
        k = get("presence_checker")
        there = isinstance(k, AObj) and not same(I, k, I.Missing) and not same(I, k, I.Invalid)
        if ep != "search" or a != "bad":
            expect(there == (a in ("given", "excluded")), f"{label}: checker {k!r}")
        if there and a != "bad":
            reps = [Q.rep(I, r) for r in I.items_of(I.getattr(k, "attr_reps"))]
            expect((reps, I.truth(I.getattr(k, "include"))) == ([("", "a", "")], a == "given"), f"{label}: checker for {reps}")
        for n, w in (("count", c), ("startIndex", x)):
            if w == "given":
                expect(get(n) == 7, f"{label}: {n} becomes {get(n)!r}")
    ctx.case(I, "all parameters together", case, max_paths=20000)


def metadata(ctx, Q):
    I = Q.I
    V = {e: ctx.setup(I, lambda I: I.call(ctx.get(I, RV + e), [Q.F.config], {})) for e in ("SchemasGET", "ResourceTypesGET")}

    def req(I):
        ep = pick(I, "endpoint", list(V))
        w = pick(I, "query string", ["none", "empty", "text", "filter", "null filter", "other"])
        q = {"none": None, "text": "filter=x"}.get(w, 0)
        if q == 0:
            q = I.new_dict({"empty": [], "filter": [("filter", opaque(I, "filter", kinds=["str"]))], "null filter": [("filter", None)], "other": [("count", 1)]}[w])
        h = opaque(I, "headers", kinds=["other"])
        data, get, iss = unpack(I, meth(I, V[ep], "parse_request", body=opaque(I, "body", kinds=["other"]), headers=h, query_string=q), "")
        same_issues(I, iss, [(("query_string", "filter"), 39, True)] if w in ("filter", "null filter") else [], f"{ep}: query string {w}")
        expect(same(I, get("headers"), h), f"{ep}: headers are changed")
        expect(get("body") is None and get("query_string") is None, f"{ep}: body or query string are handed on")
    ctx.case(I, "requests for schemas and resource types", req)


def c27(ctx):
    Q = Query(ctx)
    ctx.rule("each query parameter (or member of a search request) is read, converted or rejected on its own, at its own location; the filter, sorter and presence "
             "checker that later judge the response are exactly the requested ones; schemas and resource types can not be filtered")
    lists(ctx, Q)
    search(ctx, Q)
    together(ctx, Q)
    metadata(ctx, Q)
