"""C19: bulk requests and responses."""
from .common import *
from .schemas import plain, plain_same
from .endpoints import Fix, RV, unpack, lower

REQ = "urn:ietf:params:scim:api:messages:2.0:BulkRequest"
RESP = "urn:ietf:params:scim:api:messages:2.0:BulkResponse"
ERR = "urn:ietf:params:scim:api:messages:2.0:Error"
PATCH = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
METHODS = ("GET", "POST", "PUT", "PATCH", "DELETE")
EP = {"GET": "ResourceObjectGET", "POST": "ResourcesPOST", "PUT": "ResourceObjectPUT", "PATCH": "ResourceObjectPATCH"}
TYPES = {"Things": "urn:x:Thing", "MyThings": "urn:x:MyThing"}

LIM = '''
def gt(a, b):
    return a > b
'''


def same_findings(I, iss, want, what):
    """Comparison of the reported findings as a set (members of something that is itself rejected may be reported missing)."""
    es, ts = entries(I, iss)
    g = {(lockeys(l), str(c), s) for l, c, s in es}
    w = {(lockeys(tuple(I.norm(x) for x in e[0])), str(e[1]), e[2]) for e in want}
    blocked = {l for l, c, b in w if b}
    g = {x for x in g if not (x[1] == "15" and x not in w and any(x[0][:len(l)] == l and x[0] != l for l in blocked))}
    if g != w or ts:
        show = lambda x: sorted(f"{c}@{[k[1] for k in l]}{'!' if s else ''}" for l, c, s in x)
        raise SpecFail(f"{what}: reported {show(g)}, expected {show(w)}")


class Bulk:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = Fix(ctx)
        self.I = I = self.F.I
        self.schemas = ctx.setup(I, lambda I: {n: self.schema(I, n) for n in TYPES})
        self.single = ctx.setup(I, lambda I: {(m, n): I.call(ctx.get(I, RV + e), [self.F.config], {"resource_schema": s})
                                              for m, e in EP.items() for n, s in self.schemas.items()})
        self.error = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + "Error"), [], {}))
        self.C = ctx.get(I, RV + "BulkOperations")
        self.mkc = ctx.get(I, "src.assets.config:create_service_provider_config")

    def bulk(self, I, limit):
        cfg = I.call(self.mkc, [], {"bulk": I.new_dict([("supported", True), ("max_operations", limit), ("max_payload_size", 10)])})
        return I.call(self.C, [cfg], {"resource_schemas": I.new_list(list(self.schemas.values()))})

    def schema(self, I, plural):
        ctx = self.ctx
        own = "alpha" if plural == "Things" else "beta"
        a = I.call(ctx.get(I, "src.data.attributes:Attribute"), [], {"name": own, "type_": ctx.get(I, "src.data.type:String"), "required": True})
        s = I.call(ctx.get(I, "src.data.schemas:ResourceSchema"), [TYPES[plural]], {"attrs": I.new_list([a]), "name": plural[:-1], "plural_name": plural})

        def proc(direction):
            def f(I_, args, kw):
                v = I_.norm(args[0] if args else kw.get("data"))
                p = plain(I_, v)
                m = p.get("mark", "fine") if isinstance(p, dict) else "rejected"
                I_.R.events.append(("processed", plural, direction, m))
                if m == "rejected":
                    return (I_.Invalid, issues_of(I_, ((), "R" + plural, True)))
                d = {k: x for k, x in p.items() if k not in ("mark", "out")}
                d.setdefault("schemas", [TYPES[plural]])
                c = I_.call(self.F.SC, [jd(I_, d)], {})
                if m == "finding":
                    return (c, issues_of(I_, ((own,), "T" + plural, True)))
                return (c, issues_of(I_))
            return f
        for d in ("parse", "dump"):
            s.attrs[d] = StubM(proc(d), d)
        return s

    def alone(self, I, kind, m, n, **kw):
        """what the endpoint for one resource says: ({location: findings}, body)"""
        ep = self.error if m == "ERROR" else self.single[(m, n)]
        k = len(I.R.events)
        data, get, iss = unpack(I, meth(I, ep, "parse_request" if kind == "request" else "dump_response", **kw), "")
        del I.R.events[k:]
        return entries(I, iss)[0], (plain(I, get("body")) if get("body") is not None else None)


def under(loc, es, prefix):
    return [(loc + l[len(prefix):], c, s) for l, c, s in es if l[:len(prefix)] == prefix]


DOC = {
    "GET": {"fine": None}, "DELETE": {"fine": None},
    "POST": {"fine": {"alpha": "a", "beta": "b", "id": "1"}, "incomplete": {"x": "a"}, "finding": {"mark": "finding", "alpha": "a", "beta": "b"},
             "rejected": {"mark": "rejected"}},
    "PATCH": {"fine": {"schemas": [PATCH], "Operations": [{"op": "remove", "path": "externalId"}]}, "finding": {"schemas": [PATCH], "Operations": [{"op": "remove"}]},
              "incomplete": {"schemas": [PATCH]}},
}
DOC["PUT"] = DOC["POST"]

PATHS = {"/Things": ("type", "Things"), "/Things/1": ("object", "Things"), "/Things/1/x y": ("object", "Things"), "/MyThings": ("type", "MyThings"),
         "/MyThings/1": ("object", "MyThings"), "/Gadgets": ("type", None), "/Things2": ("type", None), "/Things2/1": ("object", None), "/Gadgets/1": ("object", None), "/things/1": ("object", None),
         "/things": ("type", None), "Things": (None, None), "Things/1": (None, None), "/": (None, None), "": (None, None), "//": (None, None), "/a b": (None, None),
         "/Things/": ("object", "Things"), "x/Things": (None, None), "x/Things/1": (None, None)}


def operation(B, I, i, method, path, bulk_id, data, kind, typed, others):
    """findings of one operation of a request and what is handed on as its data"""
    L = ("body", "Operations", i)
    want = []
    absent = lambda v: v in ("absent", None)
    if not typed:
        if method == 5:
            want.append((L + ("method",), 2, True))
        elif not absent(method) and method not in METHODS:
            want.append((L + ("method",), 14, True))
        if path == 5:
            want.append((L + ("path",), 2, True))
        if bulk_id == 5:
            want.append((L + ("bulkId",), 2, True))
    if absent(method):
        want.append((L + ("method",), 15, True))
    if absent(path) or path == "":
        want.append((L + ("path",), 15, True))
    if others:
        if method == "POST" and absent(bulk_id):
            want.append((L + ("bulkId",), 15, True))
        if method in ("POST", "PUT", "PATCH") and absent(data):
            want.append((L + ("data",), 15, True))
        if method in METHODS and not absent(path):
            k = PATHS[path][0]
            if method == "POST" and k != "type":
                want.append((L + ("path",), 34, True))
            elif method != "POST" and k != "object":
                want.append((L + ("path",), 35, True))
    return want


def requests(ctx, B):
    I = B.I
    V = ctx.setup(I, lambda I: B.bulk(I, 5))

    def run(I, V, body, what):
        h, q = opaque(I, "headers", kinds=["other"]), opaque(I, "query", kinds=["other"])
        data, get, iss = unpack(I, meth(I, V, "parse_request", body=body, headers=h, query_string=q), "")
        expect(same(I, get("headers"), h) and same(I, get("query_string"), q), f"{what}: headers or query string are changed")
        return get, iss

    def judge(I, V, ops, what, limit=None, extra=()):
        """ops: [(method, path, bulkId, data)]"""
        typed = all((m in (*METHODS, "absent", None)) and p != 5 and b != 5 for m, p, b, _ in ops)
        body = {"schemas": [REQ], "Operations": []}
        for m, p, b, d in ops:
            o = {k: v for k, v in (("method", m), ("path", p), ("bulkId", b), ("data", d)) if v != "absent"}
            body["Operations"].append(o)
        get, iss = run(I, V, jd(I, body), what)
        evs = [(e[1], e[3]) for e in I.R.events if e[0] == "processed"]
        want, outs, dispatched = list(extra), [], []
        for i, (m, p, b, d) in enumerate(ops):
            w = operation(B, I, i, m, p, b, d, "request", typed, typed)
            out = d if m not in ("GET", "DELETE") or not typed else "absent"
            L = ("body", "Operations", i)
            if not any(x[0] in (L + ("path",), L + ("data",), L + ("method",)) for x in w) and m != "DELETE" and p in PATHS:
                kind, n = PATHS[p]
                if not typed and (kind is None or (kind == "type") != (m == "POST")):
                    raise Skip()        # what happens to a badly addressed operation when another one is mistyped is not specified
                if n is None:
                    w.append((L + ("path",), 36, True))
                elif m != "GET":
                    es, out = B.alone(I, "request", m, n, body=jd(I, d))
                    w += under(L + ("data",), es, ("body",))
                    if m in ("POST", "PUT") and d not in ("absent", None):
                        dispatched.append((n, d.get("mark", "fine")))
            want += w
            outs.append(out)
        same_findings(I, iss, want, what)
        expect(evs == dispatched or not typed, f"{what}: data is processed as {evs}, expected {dispatched}")
        if limit is not None and I.truth(I.call(ref(I, LIM, "gt"), [len(ops), limit], {})):
            raise SpecFail(f"{what}: {len(ops)} operations are accepted")
        b = get("body")
        if want:
            expect(b is None, f"{what}: findings are reported, yet the body is usable")
            return
        expect(b is not None, f"{what}: nothing is reported, yet there is no body")
        g = plain(I, b)
        expect(isinstance(g, dict) and len(g.get("operations", ())) == len(ops), f"{what}: body {g}")
        for i, ((m, p, bid, d), out) in enumerate(zip(ops, outs)):
            o = g["operations"][i]
            for k, v in (("method", m), ("path", p), ("bulkid", bid)):
                expect(o.get(k, "absent") == v or v is None and o.get(k) is None, f"{what}: {k} of operation {i} becomes {o.get(k)!r}")
            got = o.get("data", "absent")
            if out in ("absent", None):
                expect(got in ("absent", None) or same(I, got, I.Missing), f"{what}: operation {i} has data {got!r}")
            else:
                expect(plain_same(I, got, lower(out)), f"{what}: data of operation {i} is {got!r}, expected {out!r}")

    def good(m, n="Things", kind="fine", bid="b1"):
        return (m, f"/{n}" if m == "POST" else f"/{n}/1", bid if m == "POST" else "absent", DOC[m][kind] if DOC[m][kind] is not None else "absent")

    def addresses(I):
        m = pick(I, "method", [*METHODS, "absent", "post", 5, None, "", "HEAD"])
        p = pick(I, "path", [*PATHS, "absent", None, 5])
        if (m not in METHODS and m is not None or p == 5) and p in PATHS and p not in ("/Things", "/Things/1", ""):
            raise Skip()
        g = good(m) if m in METHODS else good("PUT")
        judge(I, V, [(m, p, g[2], g[3])], f"bulk {m} {p}")
    ctx.case(I, "addresses", addresses, max_paths=20000)

    def contents(I):
        m = pick(I, "method", METHODS)
        n = pick(I, "resource", list(TYPES))
        d = pick(I, "data", [*DOC[m], "absent", None, "text", "list"])
        b = pick(I, "bulkId", ["b1", "absent", None, 5, ""])
        data = DOC[m].get(d, {"text": "x"}.get(d, d))
        if d == "list":
            data = ["x"]
        if data == "x" and m in ("POST", "PUT", "PATCH") or d == "list":
            data = data
        if m in ("GET", "DELETE"):
            data = "absent" if d == "absent" else (None if d is None else {"k": 1} if d == "fine" else data)
        g = good(m, n)
        if b == "" or m in ("POST", "PUT") and not isinstance(data, (dict, type(None))) and data != "absent":
            return odd(I, m, n, g, b, d, data)
        judge(I, V, [(m, g[1], b, data)], f"bulk {m} with data {d}, bulkId {b!r}")

    def odd(I, m, n, g, b, d, data):
        """data that is not an object: judged by the endpoint; an empty bulkId is a bulkId"""
        what = f"bulk {m} with data {d}, bulkId {b!r}"
        o = {"method": m, "path": g[1], "data": data, "bulkId": b}
        o = {k: v for k, v in o.items() if v != "absent" or k in ("method", "path")}
        get, iss = run(I, V, jd(I, {"schemas": [REQ], "Operations": [o]}), what)
        L = ("body", "Operations", 0)
        want = []
        if m == "POST" and b in ("absent", None):
            want.append((L + ("bulkId",), 15, True))
        if b == 5:
            want.append((L + ("bulkId",), 2, True))
        if m in ("POST", "PUT", "PATCH"):
            if data in ("absent", None):
                if b == 5:
                    raise Skip()
                want.append((L + ("data",), 15, True))
            else:
                want += under(L + ("data",), B.alone(I, "request", m, n, body=jd(I, data))[0], ("body",))
        same_findings(I, iss, want, what)
        expect((get("body") is None) == bool(want), f"{what}: body {get('body')!r}")
    ctx.case(I, "contents", contents, max_paths=20000)

    def several(I):
        kinds = {}
        for m in METHODS:
            for k in DOC[m]:
                kinds[f"{m} {k}"] = good(m, "Things", k)
        kinds["POST widget"], kinds["PUT widget"] = good("POST", "MyThings"), good("PUT", "MyThings", "finding")
        kinds["unknown"], kinds["no path"], kinds["no method"], kinds["misplaced"] = (
            ("PUT", "/Gadgets/1", "absent", {}), ("PUT", "absent", "absent", {"alpha": "a"}), ("absent", "/Things/1", "absent", {"alpha": "a"}),
            ("PUT", "/Things", "absent", {"alpha": "a"}))
        kinds["mistyped"] = ("PUT", "/Things/1", 5, DOC["PUT"]["fine"])
        a = pick(I, "first", kinds)
        b = pick(I, "second", kinds if ctx.tier == "thorough" else ["POST fine", "PUT finding", "PATCH fine", "GET fine", "DELETE fine", "POST widget", "PUT widget", "unknown",
                                                                    "no path", "mistyped"])
        judge(I, V, [kinds[a], kinds[b]], f"bulk of [{a}, {b}]")
    ctx.case(I, "several operations", several, max_paths=20000)

    def limit(I):
        n = pick(I, "operations", [1, 2, 3])
        lim = opaque(I, "max operations", kinds=["int"])
        bad = pick(I, "first operation", ["fine", "finding"])
        if not I.truth(lim):
            raise Skip()
        V = B.bulk(I, lim)
        more = I.truth(I.call(ref(I, LIM, "gt"), [n, lim], {}))
        m = pick(I, "method of the others", ["POST", "DELETE", "GET", "PATCH"])
        ops = [good("POST", "Things", bad) if i == 0 else good(m, "Things", "fine") for i in range(n)]
        judge(I, V, ops, f"bulk of {n} operations", None if more else lim, [(("body", "Operations"), 37, False)] if more else [])
    ctx.case(I, "number of operations", limit)

    def shapes(I):
        sh = pick(I, "body", ["none", "text", "list", "no operations", "null operations", "text operations", "empty operations", "text operation", "null operation", "no schemas",
                              "wrong schemas", "failOnErrors", "failOnErrors text", "other case"])
        op = {"method": "DELETE", "path": "/Things/1"}
        d = {"schemas": [REQ], "Operations": [op]}
        want = []
        if sh == "no operations":
            del d["Operations"]
            want = [(("body", "Operations"), 15, True)]
        elif sh in ("null operations", "empty operations"):
            d["Operations"] = None if sh == "null operations" else []
            want = [(("body", "Operations"), 15, True)]
        elif sh == "text operations":
            d["Operations"] = "x"
            want = [(("body", "Operations"), 2, True)]
        elif sh in ("text operation", "null operation"):
            d["Operations"] = [op, "x" if sh == "text operation" else None]
            want = [(("body", "Operations", 1), 2, True)]
        elif sh == "no schemas":
            del d["schemas"]
            want = [(("body", "schemas"), 15, True)]
        elif sh == "wrong schemas":
            d["schemas"] = [REQ, "urn:x"]
            want = [(("body", "schemas"), 27, False)]
        elif sh == "failOnErrors":
            d["failOnErrors"] = opaque(I, "limit", kinds=["int"])
        elif sh == "failOnErrors text":
            d["failOnErrors"] = "1"
            want = [(("body", "failOnErrors"), 2, True)]
        elif sh == "other case":
            d = {"SCHEMAS": [REQ.upper()], "OPERATIONS": [{"METHOD": "DELETE", "Path": "/Things/1"}]}
        b = jd(I, d)
        if sh in ("none", "text", "list"):
            b = {"none": None, "text": "x", "list": I.new_list([])}[sh]
            want = [(("body",), 15 if sh == "none" else 2, True)]
        what = f"bulk request, {sh}"
        get, iss = run(I, V, b, what)
        same_findings(I, iss, want, what)
        if want:
            expect(get("body") is None, f"{what}: findings are reported, yet the body is usable")
        else:
            expect(plain_same(I, plain(I, get("body")), lower(d)), f"{what}: body {plain(I, get('body'))}")
    ctx.case(I, "shapes of requests", shapes)


BASE = "https://x.y/v2/"
LOCS = {"thing": (BASE + "Things/1", "Things"), "widget": (BASE + "MyThings/1", "MyThings"), "gadget": (BASE + "Gadgets/1", None),
        "longer name": (BASE + "Things2/1", None), "type only": (BASE + "Things", None), "other case": (BASE + "things/1", None)}


def responses(ctx, B):
    I = B.I
    V = ctx.setup(I, lambda I: B.bulk(I, 2))

    def run(I, body, what, status=200, **kw):
        h = opaque(I, "headers", kinds=["other"])
        data, get, iss = unpack(I, meth(I, V, "dump_response", status_code=status, body=body, headers=h, **kw), "")
        expect(same(I, get("headers"), h), f"{what}: headers are changed")
        return get, iss

    def resource(loc, version="v1", kind="fine"):
        d = {"alpha": "a", "beta": "b", "id": "1", "meta": {"location": loc, "version": version}}
        if kind in ("finding", "rejected"):
            d["mark"] = kind
        if kind == "incomplete":
            del d["id"]
        return d

    def judge(I, ops, what, limit=None, status=200):
        """ops: [{member: value}]"""
        body = {"schemas": [RESP], "Operations": [{k: v for k, v in o.items() if v != "absent"} for o in ops]}
        get, iss = run(I, jd(I, body), what, status, **({} if limit is None else {"fail_on_errors": limit}))
        want, outs, errors = [], [], 0
        none = lambda v: v in ("absent", None) or same(I, v, I.Missing)

        def number(s):
            try:
                return int(s)
            except (ValueError, TypeError):
                return None
        mis = []
        for i, o in enumerate(ops):
            L = ("body", "Operations", i)
            m, s, loc, r = (o.get(k, "absent") for k in ("method", "status", "location", "response"))
            if m == 5 or not none(m) and m not in METHODS:
                mis.append((L + ("method",), 2 if m == 5 else 14, True))
            if s == 5:
                mis.append((L + ("status",), 2, True))
            elif not none(s) and number(s) is None:
                mis.append((L + ("status",), 1, True))
            if loc == 5:
                mis.append((L + ("location",), 2, True))
            elif not none(loc) and loc == "nowhere":
                mis.append((L + ("location",), 8, True))
            for k in ("bulkId", "version"):
                if o.get(k) == 5:
                    mis.append((L + (k,), 2, True))
        typed = not mis
        want += mis
        for i, o in enumerate(ops):
            L = ("body", "Operations", i)
            bad = {w[0][3] for w in mis if w[0][:3] == L}
            m, s, loc, r, ver, bid = (o.get(k, "absent") for k in ("method", "status", "location", "response", "version", "bulkId"))
            out = r
            if none(m):
                want.append((L + ("method",), 15, True))
            if none(s):
                want.append((L + ("status",), 15, True))
            n = number(s) if not none(s) and "status" not in bad else None
            if typed:
                if m == "POST" and none(bid):
                    want.append((L + ("bulkId",), 15, True))
                if n is not None:
                    if none(loc) and m in METHODS and (m != "POST" or n < 300):
                        want.append((L + ("location",), 15, True))
                    if none(r) and n >= 300:
                        want.append((L + ("response",), 15, True))
            if m in METHODS:
                rt = None
                if not none(loc) and "location" not in bad and loc:
                    rt = next((t for u, t in LOCS.values() if u == loc), None)
                    if rt is None:
                        want.append((L + ("location",), 36, True))
                if n is not None and not none(r):
                    if n >= 300:
                        errors += 1
                        es, out = B.alone(I, "response", "ERROR", None, status_code=n, body=jd(I, r))
                        want += under(L + ("response",), es, ("body",)) + under(L + ("status",), es, ("status",))
                    elif rt is not None and m == "DELETE":
                        out = None
                        if n != 204:
                            want.append((L + ("status",), 16, False))
                    elif rt is not None:
                        es, out = B.alone(I, "response", m, rt, status_code=n, body=jd(I, r), headers=I.new_dict([("Location", loc)]))
                        moved = any(e[:2] == (("headers", "Location"), 11) for e in es)
                        want += [w for w in under(L + ("response",), es, ("body",)) if w[:2] != (L + ("response", "meta", "location"), 11)]
                        want += under(L + ("status",), es, ("status",))
                        if moved:
                            want += [(L + ("response", "meta", "location"), 11, False), (L + ("location",), 11, False)]
                        rv = out.get("meta", {}).get("version") if isinstance(out, dict) else None
                        if isinstance(out, dict) and not none(ver) and "version" not in bad and rv and ver and not I.eq(rv, ver):
                            want += [(L + ("response", "meta", "version"), 11, False), (L + ("version",), 11, False)]
            outs.append(out)
        if limit is not None and I.truth(I.call(ref(I, LIM, "gt"), [errors, limit], {})):
            want.append((("body", "Operations"), 38, False))
        if status != 200 and not I.eq(status, 200):
            want.append((("status",), 16, False))
        same_findings(I, iss, want, what)
        b = get("body")
        if want:
            expect(b is None, f"{what}: findings are reported, yet the body is usable")
            return
        expect(b is not None, f"{what}: nothing is reported, yet there is no body")
        g = plain(I, b)
        for i, (o, out) in enumerate(zip(ops, outs)):
            got = g["operations"][i]
            for k in ("method", "bulkId", "version", "location", "status"):
                v = o.get(k, "absent")
                expect(same(I, got.get(k.lower(), "absent"), v) or none(v) and none(got.get(k.lower(), "absent")), f"{what}: {k} of operation {i} becomes {got.get(k.lower())!r}")
            x = got.get("response", "absent")
            if none(out):
                expect(none(x), f"{what}: operation {i} has response {x!r}")
            else:
                expect(plain_same(I, x, lower(out)), f"{what}: response of operation {i} is {x!r}, expected {out!r}")

    def op(m, kind="thing", status=None, **kw):
        u = LOCS[kind][0] if kind in LOCS else kind
        d = {"method": m, "status": status or {"POST": "201", "DELETE": "204"}.get(m, "200"), "location": u}
        if m == "POST":
            d["bulkId"] = "b1"
        if m != "DELETE":
            d["response"] = resource(u)
        d.update(kw)
        return d

    def err(m, status="404", **kw):
        return op(m, status=status, **{"response": {"schemas": [ERR], "status": status, "detail": "x"}, **kw})

    def members(I):
        m = pick(I, "method", [*METHODS, "absent", None, "put", 5])
        k = pick(I, "member", ["location", "status", "bulkId", "version", "response"])
        err_ = pick(I, "error", [False, True])
        o = err(m) if err_ else op(m)
        if m not in METHODS:
            o["bulkId"] = "b"
        if k == "location":
            o["location"] = pick(I, "location", [*(u for u, _ in LOCS.values()), "absent", None, 5, "nowhere"])
            if o.get("response") and not err_ and isinstance(o["location"], str) and o["location"].startswith("http"):
                if pick(I, "resource's own location", ["same", "other"]) == "same":
                    o["response"] = resource(o["location"])
        elif k == "status":
            o["status"] = pick(I, "status", ["200", "201", "202", "204", "299", "300", "404", "599", "600", "100", "abc", "", "absent", None, 5])
            if m == "POST" and pick(I, "with location", [True, False]) is False:
                del o["location"]
        elif k == "bulkId":
            o["bulkId"] = pick(I, "bulkId", ["b", "absent", None, 5])
        elif k == "version":
            o["version"] = pick(I, "version", ["v1", "v2", "absent", None, 5, ""])
        else:
            r = pick(I, "response", ["fine", "finding", "rejected", "incomplete", "error", "absent", None, "text", "empty", "no text", "zero", "false", "no items"])
            if r == "empty" and m == "POST" and not err_:
                raise Skip()        # whether an empty object is a body is not specified
            o["response"] = {"text": "x", "empty": {}, "no text": "", "zero": 0, "false": False, "no items": [], "error": {"schemas": [ERR], "status": o["status"]}}.get(r, r)
            if r in ("fine", "finding", "rejected", "incomplete"):
                o["response"] = resource(LOCS["thing"][0], kind=r)
        judge(I, [o], f"bulk response to {m}{' (error)' if err_ else ''}, {k} {o.get(k)!r}")
    ctx.case(I, "members of responses", members, max_paths=20000)

    def versions(I):
        m = pick(I, "method", ["GET", "POST", "PUT", "PATCH"])
        v, w = opaque(I, "operation's version", kinds=["str"]), opaque(I, "resource's version", kinds=["str"])
        o = op(m, version=v)
        o["response"] = resource(o["location"], version=w)
        if I.eq(v, "") or I.eq(w, ""):
            raise Skip()
        judge(I, [o], f"bulk response to {m} with versions")
    ctx.case(I, "versions", versions)

    def several(I):
        K = {**{m: op(m) for m in METHODS}, **{f"{m} error": err(m) for m in ("POST", "DELETE", "PATCH")}, "widget": op("PUT", "widget"), "unknown": op("PUT", "gadget"),
             "finding": op("PUT", response=resource(LOCS["thing"][0], kind="finding")), "no method": op("absent"), "no status": op("PUT", status="absent"),
             "no response": op("PUT", response="absent"), "moved": op("PUT", response=resource("urn:elsewhere")), "mistyped": op("PUT", version=5),
             "changed": op("PUT", version="v2"), "bad error": err("PUT", "404", response={"schemas": [ERR], "status": "400"})}
        some = ["PUT", "POST error", "widget", "unknown", "finding", "no method", "mistyped", "changed", "DELETE"]
        a, b = pick(I, "first", K), pick(I, "second", K if ctx.tier == "thorough" else some)
        judge(I, [K[a], K[b]], f"bulk response of [{a}, {b}]")
    ctx.case(I, "several responses", several, max_paths=20000)

    def limits(I):
        n = pick(I, "errors", [0, 1, 2, 3])
        fine = pick(I, "successes", [0, 1])
        if not n + fine:
            raise Skip()
        first = pick(I, "successes first", [True, False]) if fine else True
        lim = opaque(I, "failOnErrors", kinds=["int"]) if pick(I, "limited", [True, False]) else None
        meths = pick(I, "methods", ["PUT", "DELETE", "PATCH", "POST", "GET", "mixed"]) if n else "PUT"
        ss = pick(I, "statuses", [("300", "404", "500"), ("599", "412", "409")]) if n else ()
        ops = [op("PUT")] * fine + [err(("DELETE", "POST", "GET")[j] if meths == "mixed" else meths, s) for j, s in enumerate(ss[:n])]
        judge(I, ops if first else ops[::-1], f"bulk response with {n} errors", lim, opaque(I, "status", kinds=["int"]))
    ctx.case(I, "failOnErrors", limits)

    def shapes(I):
        sh = pick(I, "body", ["none", "text", "list", "no operations", "null operations", "text operations", "empty operations", "text operation", "no schemas", "wrong schemas",
                              "other case"])
        o = {"method": "DELETE", "location": LOCS["thing"][0], "status": "204"}
        d = {"schemas": [RESP], "Operations": [o]}
        want = []
        if sh == "no operations":
            del d["Operations"]
            want = [(("body", "Operations"), 15, True)]
        elif sh in ("null operations", "empty operations"):
            d["Operations"] = None if sh == "null operations" else []
            want = [(("body", "Operations"), 15, True)]
        elif sh == "text operations":
            d["Operations"] = "x"
            want = [(("body", "Operations"), 2, True)]
        elif sh == "text operation":
            d["Operations"] = [o, "x"]
            want = [(("body", "Operations", 1), 2, True)]
        elif sh == "no schemas":
            del d["schemas"]
            want = [(("body", "schemas"), 15, True)]
        elif sh == "wrong schemas":
            d["schemas"] = [RESP, "urn:x"]
            want = [(("body", "schemas"), 27, False)]
        elif sh == "other case":
            d = {"SCHEMAS": [RESP], "OPERATIONS": [{k.upper(): v for k, v in o.items()}]}
        b = jd(I, d)
        if sh in ("none", "text", "list"):
            b = {"none": None, "text": "x", "list": I.new_list([])}[sh]
            want = [(("body",), 15 if sh == "none" else 2, True)]
        what = f"bulk response, {sh}"
        get, iss = run(I, b, what)
        same_findings(I, iss, want, what)
        if want:
            expect(get("body") is None, f"{what}: findings are reported, yet the body is usable")
        else:
            expect(plain_same(I, plain(I, get("body")), lower(d)), f"{what}: body {plain(I, get('body'))}")
    ctx.case(I, "shapes of responses", shapes)


def c19(ctx):
    B = Bulk(ctx)
    ctx.rule("each operation of a bulk request or response is judged exactly as the endpoint for its method and resource type judges the same data on its own, with the "
             "findings at the operation's place; addressing, bulkId and status rules per operation; limits on operations and errors; one finding and there is no body")
    requests(ctx, B)
    responses(ctx, B)
