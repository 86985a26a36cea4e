"""C16, C17: requests and responses about one resource, errors and deletions."""
from .common import *
from .schemas import plain, plain_same

A = "src.data.attributes:"
RV = "src.request_validators:"
CORE, EXT = "urn:x:Core", "urn:x:Ext"

# name, sub, extension: required, issuer, mutability, multi-valued complex
RO = "READ_ONLY"
TABLE = {
    ("schemas", "", False): dict(required=True, mutability=RO),
    ("id", "", False): dict(required=True, issuer="SERVER", mutability=RO),
    ("externalId", "", False): dict(),
    ("meta", "", False): dict(mutability=RO),
    **{("meta", n, False): dict(mutability=RO) for n in ("resourceType", "created", "lastModified", "location", "version")},
    ("alpha", "", False): dict(required=True),
    ("beta", "", False): dict(mutability=RO),
    ("gamma", "", False): dict(required=True, issuer="CLIENT", mutability="IMMUTABLE"),
    ("delta", "", False): dict(kind="single"),
    ("delta", "x", False): dict(mutability=RO),
    ("delta", "y", False): dict(),
    ("eps", "", False): dict(kind="multi"),
    ("eps", "x", False): dict(required=True, issuer="SERVER", mutability=RO),
    ("eps", "y", False): dict(required=True),
    ("theta", "", False): dict(kind="single", mutability=RO),
    ("theta", "y", False): dict(),
    ("zeta", "", True): dict(mutability=RO),
    ("eta", "", True): dict(required=True, issuer="SERVER"),
    ("iota", "", True): dict(kind="single", required=True, issuer="SERVER", mutability="WRITE_ONLY"),
    ("iota", "x", True): dict(mutability=RO),
    ("iota", "y", True): dict(required=True),
    ("kappa", "", True): dict(kind="multi", mutability="IMMUTABLE"),
    ("kappa", "x", True): dict(mutability=RO),
    ("kappa", "y", True): dict(),
}
FULL = {
    "schemas": [CORE, EXT], "id": "1", "externalId": "e", "meta": {"location": "loc", "version": "v"}, "alpha": "al", "beta": "be", "gamma": "ga",
    "delta": {"x": "dx", "y": "dy"}, "eps": [{"x": "ex0", "y": "ey0"}, {"y": "ey1", "x": "ex1"}], "theta": {"y": "ty"},
    EXT: {"zeta": "ze", "eta": "et", "iota": {"x": "ix", "y": "iy"}, "kappa": [{"x": "kx", "y": "ky"}]},
}


def at(d, name, sub, ext):
    """[(location, value or None)] of an attribute in a document"""
    pre = (EXT,) if ext else ()
    if ext:
        d = d.get(EXT, {})
    if not sub:
        return [(pre + (name,), d.get(name))]
    v = d.get(name)
    if TABLE[(name, "", ext)].get("kind") == "multi":
        if v is None:
            return []
        return [(pre + (name, i, sub), x.get(sub) if isinstance(x, dict) else "INVALID") for i, x in enumerate(v)]
    return [(pre + (name, sub), v.get(sub) if isinstance(v, dict) else None)]


def presence(d, exempt=()):
    """missing required attributes of a document"""
    out = []
    for k, c in TABLE.items():
        if c.get("required") and k not in exempt:
            for loc, v in at(d, *k):
                if v is None or v == "" or v == []:
                    out.append((("body",) + loc, 15, True))
    return out


def without_read_only(d):
    out = {}
    for k, v in d.items():
        if k == EXT:
            out[k] = {n: strip(n, x, True) for n, x in v.items() if TABLE[(n, "", True)].get("mutability") != RO}
        elif TABLE[(k, "", False)].get("mutability") != RO:
            out[k] = strip(k, v, False)
    return out


def strip(n, v, ext):
    if isinstance(v, dict):
        return {s: x for s, x in v.items() if TABLE[(n, s, ext)].get("mutability") != RO}
    if isinstance(v, list):
        return [strip(n, x, ext) for x in v]
    return v


SERVER_REQUIRED = [k for k, c in TABLE.items() if c.get("required") and c.get("issuer") == "SERVER"]


def lower(d):
    if isinstance(d, dict):
        return {k.lower(): lower(v) for k, v in d.items()}
    if isinstance(d, list):
        return [lower(x) for x in d]
    return d


class Fix:
    """A resource schema whose processing is known by its contract."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = ctx.interp(native_cont=False)
        for n in ("Attribute", "ComplexAttribute"):
            ctx.get(I, A + n)
        self.SC, self.Rep = ctx.get(I, "src.data.container:SCIMDataContainer"), ctx.get(I, "src.data.container:AttrRep")
        self.Chk = ctx.get(I, "src.attributes_presence:AttributePresenceChecker")
        self.MUT, self.ISS = enum(I, A + "AttributeMutability"), enum(I, A + "AttributeIssuer")
        self.config = ctx.setup(I, lambda I: I.call(ctx.get(I, "src.assets.config:create_service_provider_config"), [],
                                                    {"bulk": I.new_dict([("supported", True), ("max_operations", 2), ("max_payload_size", 10)])}))

    def attr(self, I, k, typ):
        c = TABLE[k]
        kw = {"required": c.get("required", False), "issuer": self.ISS[c.get("issuer", "NOT_SPECIFIED")],
              "mutability": self.MUT[c.get("mutability", "READ_WRITE")]}
        if "kind" in c:
            subs = [self.attr(I, j, typ) for j in TABLE if j[0] == k[0] and j[2] == k[2] and j[1]]
            return I.call(I.lookup(A + "ComplexAttribute"), [], {"name": k[0], "multi_valued": c["kind"] == "multi",
                                                                "sub_attributes": I.new_list(subs), **kw})
        return I.call(I.lookup(A + "Attribute"), [], {"name": k[1] or k[0], "type_": typ, **kw})

    def schema(self, I, contract=True, name="Thing", plural="Things", urn=CORE, typ="String"):
        typ = self.ctx.get(I, "src.data.type:" + typ)
        mk = lambda ext: I.new_list([self.attr(I, k, typ) for k in TABLE if k[2] is ext and not k[1]
                                     and k[0] not in ("schemas", "id", "externalId", "meta")])
        s = I.call(self.ctx.get(I, "src.data.schemas:ResourceSchema"), [urn], {"attrs": mk(False), "name": name, "plural_name": plural})
        meth(I, s, "with_extension", I.call(self.ctx.get(I, "src.data.schemas:SchemaExtension"), [EXT], {"attrs": mk(True)}))
        if contract:
            for d in ("parse", "dump"):
                s.attrs[d] = StubM(self.processed(d), d)
        return s

    def processed(self, direction):
        def f(I, args, kw):
            v = args[0] if args else kw.get("data")
            n = sum(1 for e in I.R.events if e[0] == "processed")
            mode, d = self.outcome
            I.R.events.append(("processed", direction, I.norm(v)))
            if mode == "rejected":
                return (I.Invalid, issues_of(I, ((), "R", True)))
            c = I.call(self.SC, [jd(I, d)], {})
            if mode == "finding":
                I.setitem(c, I.call(self.Rep, [], {"attr": "alpha"}), I.Invalid)
                return (c, issues_of(I, (("alpha",), "T", True)))
            if mode == "remark":
                return (c, issues_of(I, (("alpha",), "N", False)))
            return (c, issues_of(I))
        return f

    def pick_body(self, I, docs):
        """What processing the body gives: its own findings and the document."""
        n = pick(I, "document", docs)
        d = docs[n]
        mode = pick(I, "processing", ["fine", "remark", "finding", "rejected"]) if n == next(iter(docs)) else "fine"
        self.outcome = (mode, d)
        own = {"fine": [], "remark": [(("body", "alpha"), "N", False)], "finding": [(("body", "alpha"), "T", True)],
               "rejected": [(("body",), "R", True)]}[mode]
        return n, mode, d, own

    def used(self, I, body, direction, what):
        evs = [e for e in I.R.events if e[0] == "processed"]
        expect(len(evs) >= 1, f"{what}: the body is not processed")
        for e in evs:
            expect(e[1] == direction, f"{what}: the body is processed as if for {e[1]}")
            expect(same(I, e[2], body), f"{what}: {e[2]!r} is processed instead of the body")


def unpack(I, r, what):
    data, iss = pair(I, r)
    get = lambda n: I.norm(I.getattr(data, n))
    return data, get, iss


def judge_body(I, got, iss, want, what):
    """no body with findings; the processed data without"""
    es, ts = entries(I, iss)
    if es or ts:
        expect(got is None, f"{what}: findings {es} are reported, yet the body {got!r} is usable")
        return
    if want is None:
        expect(got is None, f"{what}: body {got!r}, expected none")
        return
    expect(got is not None, f"{what}: nothing is reported, yet there is no body")
    g = plain(I, got)
    expect(plain_same(I, g, lower(want)), f"{what}: body {g}, expected {lower(want)}")


# ------------------------------------------------------------------ the query string of requests about one resource
QS = {
    "none": (None, None, []),
    "text": ("attributes=a", None, []),
    "empty": ({}, "no checker", []),
    "unrelated": ({"x": "y"}, "no checker", []),
    "attributes": ({"attributes": "alpha,Delta.X", "x": 1}, ([("", "alpha", ""), ("", "Delta", "X")], True), []),
    "attribute list": ({"attributes": ["urn:x:Core:alpha"]}, ([("urn:x:Core", "alpha", "")], True), []),
    "excluded": ({"excludeAttributes": "beta,urn:x:Core:Delta.y"}, ([("", "beta", ""), ("urn:x:Core", "Delta", "y")], False), []),
    "excluded list": ({"excludeAttributes": ["beta", "delta.y"], "attributes": []}, ([("", "beta", ""), ("", "delta", "y")], False), []),
    "both": ({"attributes": "a", "excludeAttributes": ["b"]}, "nothing", [(("query_string", "attributes"), 30, True),
                                                                        (("query_string", "excludeAttributes"), 30, True)]),
    "malformed": ({"attributes": "a b,c"}, "nothing", [(("query_string", "attributes", "a b"), 111, True)]),
    "empty text": ({"attributes": "", "x": "y"}, "no checker", []),
    "empty excluded": ({"excludeAttributes": "", "attributes": "alpha"}, ([("", "alpha", "")], True), []),
    "null": ({"excludeAttributes": None}, "no checker", []),
    "number": ({"attributes": 5}, "nothing", [(("query_string", "attributes"), 2, True)]),
    "boolean excluded": ({"excludeAttributes": True, "attributes": "alpha"}, "nothing", [(("query_string", "excludeAttributes"), 2, True)]),
    "list with a number": ({"attributes": ["alpha", 5]}, "nothing", [(("query_string", "attributes", "5"), 111, True)]),
    "empty name": ({"attributes": "alpha,,beta"}, "nothing", [(("query_string", "attributes", ""), 111, True)]),
    "trailing comma": ({"excludeAttributes": "alpha,"}, "nothing", [(("query_string", "excludeAttributes", ""), 111, True)]),
    "spaces": ({"attributes": "alpha, beta"}, "nothing", [(("query_string", "attributes", " beta"), 111, True)]),
    "spaces excluded": ({"excludeAttributes": " alpha"}, "nothing", [(("query_string", "excludeAttributes", " alpha"), 111, True)]),
    "malformed excluded": ({"excludeAttributes": ["c", "d.e.f"]}, "nothing", [(("query_string", "excludeAttributes", "d.e.f"), 111, True)]),
}


def judge_query(I, got, given, name, what):
    q, want, _ = QS[name]
    if not isinstance(q, dict):
        expect(same(I, got, given), f"{what}: query string {given!r} becomes {got!r}")
        return
    d = I.norm(got)
    expect(isinstance(d, ADict), f"{what}: query string becomes {got!r}")
    items = {I.norm(k): I.norm(v) for k, v in d.items.values()}
    c = items.pop("presence_checker", None)
    for k, v in q.items():
        g = items.get(k)
        g = [I.norm(x) for x in g.items] if isinstance(g, AList) else g
        expect(g == v, f"{what}: query parameter {k} becomes {g!r}")
    expect(set(items) <= set(q), f"{what}: query string holds {sorted(items)}")
    if want == "nothing":
        expect(not isinstance(c, AObj) or same(I, c, I.Invalid), f"{what}: rejected attribute names give a checker")
    elif want == "no checker":
        expect(c is None, f"{what}: no attributes are requested, yet there is a checker {c!r}")
    else:
        expect(isinstance(c, AObj) and not same(I, c, I.Invalid), f"{what}: no checker for the requested attributes")
        reps = [tuple(I.norm(I.getattr(r, n)) for n in ("schema", "attr", "sub_attr")) for r in I.items_of(I.getattr(c, "attr_reps"))]
        expect(reps == want[0], f"{what}: checker for {reps}, requested {want[0]}")
        expect(same(I, I.getattr(c, "include"), want[1]), f"{what}: include={I.norm(I.getattr(c, 'include'))!r}, expected {want[1]}")


def docs():
    d = {"complete": FULL}

    def drop(*path):
        import copy
        x = copy.deepcopy(FULL)
        y = x
        for p in path[:-1]:
            y = y[p]
        del y[path[-1]]
        return x
    for path in [("schemas",), ("id",), ("alpha",), ("gamma",), ("beta",), ("eps",), ("eps", 0, "x"), ("eps", 1, "y"), (EXT,), (EXT, "eta"), (EXT, "iota"),
                 (EXT, "iota", "y"), ("meta",), ("delta", "x"), ("theta",), (EXT, "kappa", 0, "x")]:
        d["no " + ".".join("ext" if p == EXT else str(p) for p in path)] = drop(*path)
    d["empty alpha"] = {**FULL, "alpha": ""}
    d["null id"] = {**FULL, "id": None}
    d["no items"] = {**FULL, "eps": []}
    d["falsy read-only values"] = {**FULL, "beta": 0, "delta": {"x": False, "y": "dy"}, "eps": [{"x": 0, "y": "a"}, {"x": False, "y": 0}], "theta": {"y": 0},
                                   EXT: {**FULL[EXT], "zeta": False, "iota": {"x": 0, "y": "iy"}, "kappa": [{"x": None, "y": "ky"}, {"x": "", "y": 0}, {"x": []}]}}
    d["minimal"] = {"alpha": 0, "gamma": False}
    return d


def requests(ctx, F, endpoints=("ResourceObjectGET", "ResourceObjectPUT", "ResourcesPOST")):
    I = F.I
    s = ctx.setup(I, F.schema)
    D = docs()
    for ep in endpoints:
        V = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + ep), [F.config], {"resource_schema": s}))

        def req(I, ep=ep, V=V):
            mode = pick(I, "split", list(D) + ["query " + q for q in QS])
            if mode.startswith("query "):
                q, few = mode[6:], {k: D[k] for k in ("complete", "no alpha")}
            else:
                q, few = pick(I, "query string", ["none", "attributes"]), {mode: D[mode]}
            n, pm, d, own = F.pick_body(I, few)
            if mode.startswith("query ") and pm == "remark":
                raise Skip()
            given = jd(I, QS[q][0]) if QS[q][0] is not None else None
            headers = pick(I, "headers", [None, "dict"])
            headers = I.new_dict([("X", opaque(I, "header", kinds=["str"]))]) if headers else None
            body = opaque(I, "body", kinds=["other"])
            r = meth(I, V, "parse_request", body=body, headers=headers, query_string=given)
            data, get, iss = unpack(I, r, ep)
            what = f"{ep} request, body {pm} ({n}), query {q}"
            want = list(QS[q][2])
            if ep != "ResourceObjectGET":
                want += own
                if pm != "rejected":
                    doc = dict(d)
                    if pm == "finding":
                        doc["alpha"] = "INVALID"
                    want += presence(doc, SERVER_REQUIRED if ep == "ResourcesPOST" else ())
                F.used(I, body, "parse", what)
            same_issues(I, iss, want, what)
            expect(same(I, get("headers"), headers), f"{what}: headers become {get('headers')!r}")
            judge_query(I, get("query_string"), given, q, what)
            if ep == "ResourceObjectGET":
                expect(same(I, get("body"), body) or want and get("body") is None, f"{what}: body becomes {get('body')!r}")
            else:
                judge_body(I, get("body"), iss, without_read_only(d) if ep == "ResourceObjectPUT" else d, what)
        ctx.case(I, f"{ep} request", req, max_paths=20000)


def c16(ctx):
    F = Fix(ctx)
    ctx.rule("PUT: findings of the body and every missing required attribute; read-only attributes and sub-attributes (core, extension, every item) are "
             "dropped and nothing else; POST: the same without dropping, and server-issued required attributes may be missing; the requested attributes "
             "become a checker; headers and other parameters pass through")
    requests(ctx, F)


# ------------------------------------------------------------------ responses
FAKE_CHECKER = '''
from src.attributes_presence import AttributePresenceChecker

class Given(AttributePresenceChecker):
    def __call__(self, data, attrs, direction):
        return judge(data, attrs, direction)
'''


def fake_checker(I, outcome):
    """A presence checker known by its contract."""
    C = ref(I, FAKE_CHECKER, "Given")
    m = I.mods["ref:" + hashlib.sha1(FAKE_CHECKER.encode()).hexdigest()[:8]]

    def judge(I_, args, kw):
        d = dict(zip(("data", "attrs", "direction"), args))
        d.update(kw)
        I_.R.events.append(("presence", I_.norm(d["data"]), I_.norm(d["attrs"]), I_.norm(d["direction"])))
        return issues_of(I_, *outcome)
    m.vars["judge"] = StubM(judge, "judge")
    return C


LOCREF = '''
def same_location(a, b):
    return a == b
'''


def response_docs():
    D = {"complete": {**FULL, "meta": {"location": "LOC", "version": "v"}}}
    D["no meta.location"] = {**FULL, "meta": {"version": "v"}}
    D["no meta"] = {k: v for k, v in FULL.items() if k != "meta"}
    D["null meta.location"] = {**FULL, "meta": {"location": None}}
    D["no id"] = {k: v for k, v in FULL.items() if k != "id"}
    D["no eta"] = {**FULL, EXT: {k: v for k, v in FULL[EXT].items() if k != "eta"}}
    D["no eps.y"] = {**FULL, "eps": [{"x": 1, "y": 2}, {"x": 3}]}
    return D


def responses(ctx, F, endpoints=("ResourceObjectGET", "ResourceObjectPUT", "ResourcesPOST", "ResourceObjectPATCH")):
    I = F.I
    s = ctx.setup(I, F.schema)
    D = response_docs()
    for ep in endpoints:
        V = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + ep), [F.config], {"resource_schema": s}))
        ok = 201 if ep == "ResourcesPOST" else 200

        def resp(I, ep=ep, V=V, ok=ok):
            hd = pick(I, "headers", ["none", "empty", "location", "null location", "other", "text", "list", "lower case"])
            loc = opaque(I, "header location", kinds=["str"])
            headers = {"none": lambda: None, "empty": lambda: I.new_dict([]), "location": lambda: I.new_dict([("Location", loc), ("X", 1)]),
                       "null location": lambda: I.new_dict([("Location", None)]), "other": lambda: I.new_dict([("X", 1)]),
                       "lower case": lambda: I.new_dict([("location", loc)]),
                       "text": lambda: "Location", "list": lambda: I.new_list(["Location"])}[hd]()
            n, pm, d, own = F.pick_body(I, D if hd in ("location", "none") else {"complete": D["complete"]})
            ck = pick(I, "checker", ["none", "content", "nothing found"]) if n == "complete" else "none"
            doc = dict(d)
            mloc = opaque(I, "meta location", kinds=["str"])
            if n == "complete":
                doc["meta"] = {"location": mloc, "version": "v"}
            if pm == "fine" and n == "complete" and hd == "location" and pick(I, "meta.location rejected", [False, True]):
                pm, own = "location", [(("body", "meta", "location"), "L", True)]
                F.outcome = ("fine", {**doc, "meta": {"location": I.Invalid, "version": "v"}})
                s.attrs["dump"] = StubM(lambda I_, a, k: (I_.R.events.append(("processed", "dump", I_.norm(a[0] if a else k.get("data")))),
                                                          I_.call(F.SC, [jd(I_, F.outcome[1])], {}), issues_of(I_, (("meta", "location"), "L", True)))[1:], "dump")
            else:
                s.attrs["dump"] = StubM(F.processed("dump"), "dump")
                F.outcome = (pm, doc)
            status = opaque(I, "status", kinds=["int"])
            body = I.new_dict([("any", opaque(I, "content", kinds=["str"]))])
            if pm == "rejected" and ep != "ResourcesPOST" and pick(I, "body given", [True, False]) is False:
                body = None
            kw = {}
            if ck != "none":
                C = fake_checker(I, [(("beta",), "C", False)] if ck == "content" else [])
                kw["presence_checker"] = I.call(C, [], {"attr_reps": I.new_list([I.call(F.Rep, [], {"attr": "beta"})]) if pick(
                    I, "names requested", [True, False]) else None, "include": pick(I, "include", [True, False]) if hd in ("location", "none") else True})
            r = meth(I, V, "dump_response", status_code=status, body=body, headers=headers, **kw)
            data, get, iss = unpack(I, r, ep)
            what = f"{ep} response, headers {hd}, body {pm} ({n}), checker {ck}"
            if ep == "ResourceObjectPATCH" and I.eq(status, 204):
                named = ck != "none" and len(I.items_of(I.getattr(kw["presence_checker"], "attr_reps"))) > 0
                same_issues(I, iss, [(("status",), 16, False)] if named else [], what + ", no content")
                expect(get("body") is None, f"{what}, no content: body {get('body')!r}")
                return
            F.used(I, body, "dump", what)
            want = list(own)
            if not I.eq(status, ok):
                want.append((("status",), 16, False))
            has_location = hd in ("location", "null location")
            if ep == "ResourcesPOST" and not has_location:
                want.append((("headers", "Location"), 10, True))
            if pm != "rejected":
                if ck == "none":
                    x = dict(doc)
                    if pm == "finding":
                        x["alpha"] = "INVALID"
                    want += presence(x)
                elif ck == "content":
                    want.append((("body", "beta"), "C", False))
                if hd == "location" and pm != "location":
                    ml = doc.get("meta", {}).get("location", None)
                    if ml is None or not I.truth(I.call(ref(I, LOCREF, "same_location"), [ml, loc], {})):
                        want += [(("body", "meta", "location"), 11, False), (("headers", "Location"), 11, False)]
                for e in [e for e in I.R.events if e[0] == "presence"]:
                    expect(same(I, e[3], "RESPONSE"), f"{what}: presence is judged for a {e[3]!r}")
                    expect(e[2] is I.norm(I.getattr(s, "attrs")), f"{what}: presence is judged for other attributes")
            same_issues(I, iss, want, what)
            if hd not in ("none", "empty"):
                expect(same(I, get("headers"), headers), f"{what}: headers become {get('headers')!r}")
            judge_body(I, get("body"), iss, doc, what)
            if get("body") is not None:
                expect(isinstance(get("body"), ADict), f"{what}: the body is {get('body')!r}, not a plain mapping")
        ctx.case(I, f"{ep} response", resp, max_paths=30000)

    post = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + "ResourcesPOST"), [F.config], {"resource_schema": s}))

    def nobody(I):
        h = pick(I, "headers", [None, "given"])
        h = I.new_dict([("X", 1)]) if h else None
        data, get, iss = unpack(I, meth(I, post, "dump_response", status_code=opaque(I, "status", kinds=["int"]),
                                        body=None, headers=h), "")
        same_issues(I, iss, [], "ResourcesPOST response without body")
        expect(get("body") is None, "ResourcesPOST response without body gets one")
        expect(same(I, get("headers"), h), "headers are changed")
    ctx.case(I, "ResourcesPOST response without body", nobody)

    Del = ctx.get(I, RV + "ResourceObjectDELETE")

    def delete(I):
        st = opaque(I, "status", kinds=["int"])
        h = pick(I, "headers", [None, "given"])
        h = I.new_dict([("X", 1)]) if h else None
        data, get, iss = unpack(I, meth(I, I.call(Del, [F.config], {}), "dump_response", status_code=st, headers=h), "")
        same_issues(I, iss, [] if I.eq(st, 204) else [(("status",), 16, False)], "ResourceObjectDELETE response")
        expect(get("body") is None, "deletion has a body")
        expect(same(I, get("headers"), h), "headers are changed")
    ctx.case(I, "ResourceObjectDELETE response", delete)


STATUSREF = '''
def text(code):
    return str(code)
def number(text):
    return int(text)
def in_range(code):
    return 300 <= code < 600
def same(a, b):
    return a == b
'''
ERROR_URN = "urn:ietf:params:scim:api:messages:2.0:Error"


def errors(ctx, F):
    I = F.I
    Er = ctx.setup(I, lambda I: I.call(ctx.get(I, RV + "Error"), [], {}))

    def err(I):
        bk = pick(I, "body", ["object", "none", "text", "list", "no status", "null status", "status not text", "no schemas", "wrong schemas", "unknown type",
                              "known type, other case", "detail not text", "junk"])
        code = opaque(I, "status code", kinds=["int"])
        st = opaque(I, "body status", kinds=["str"])
        detail = opaque(I, "detail", kinds=["str"])
        d = {"schemas": [ERROR_URN], "status": st, "scimType": "tooMany", "Detail": detail}
        own = []
        if bk == "no status":
            d.pop("status")
            own = [(("body", "status"), 15, True)]
        elif bk == "null status":
            d["status"] = None
            own = [(("body", "status"), 15, True)]
        elif bk == "status not text":
            d["status"] = opaque(I, "number", kinds=["int"])
            own = [(("body", "status"), 2, True)]
        elif bk == "no schemas":
            d.pop("schemas")
            own = [(("body", "schemas"), 15, True)]
        elif bk == "wrong schemas":
            d["schemas"] = ["urn:x:other", ERROR_URN]
            own = [(("body", "schemas"), 27, False)]
        elif bk == "unknown type":
            d["scimType"] = "somethingElse"
            own = [(("body", "scimType"), 14, True)]
        elif bk == "known type, other case":
            d["scimType"] = "TOOMANY"
        elif bk == "detail not text":
            d["Detail"] = True
            own = [(("body", "detail"), 2, True)]
        elif bk == "junk":
            d["zulu"] = 5
        body = {"none": None, "text": "x"}.get(bk, 0)
        if bk == "list":
            body = I.new_list([])
        elif body == 0:
            body = jd(I, d)
        if bk in ("none", "text", "list"):
            own = [(("body",), 15 if bk == "none" else 2, True)]
        h = pick(I, "headers", [None, "given"])
        h = I.new_dict([("X", 1)]) if h else None
        data, get, iss = unpack(I, meth(I, Er, "dump_response", status_code=code, body=body, headers=h), "")
        want = list(own)
        R = lambda n, *a: I.truth(I.call(ref(I, STATUSREF, n), list(a), {}))
        empty = bk not in ("none", "text", "list") and I.eq(st, "")
        if empty and not any(w[0] == ("body", "status") for w in want):
            want.append((("body", "status"), 15, True))
        elif bk not in ("none", "text", "list", "no status", "null status", "status not text"):
            t = I.call(ref(I, STATUSREF, "text"), [code], {})
            if not R("same", t, st):
                want += [(("body", "status"), 13, False), (("status",), 13, False)]
        if not R("in_range", code):
            want.append((("status",), 12, False))
        what = f"error response, body {bk}"
        same_issues(I, iss, want, what)
        expect(same(I, get("headers"), h), f"{what}: headers are changed")
        w = {k: v for k, v in d.items() if k != "zulu"}
        judge_body(I, get("body"), iss, w, what)
    ctx.case(I, "error response", err, max_paths=20000)

    Es = ctx.setup(I, lambda I: I.call(ctx.get(I, "src.assets.schemas.error:Error"), [], {}))

    def read(I):
        """an error that is read: its status is a number from 300 to 599"""
        st = opaque(I, "status", kinds=["str", "int", "none", "bool"])
        d = jd(I, {"schemas": [ERROR_URN], "status": st, "detail": "d"})
        r, iss = pair(I, meth(I, Es, "parse", d))
        k = kind_of(I, st)
        n = None
        if k == "none":
            want = []
        elif k != "str":
            want = [(("status",), 2, True)]
        else:
            try:
                n = I.call(ref(I, STATUSREF, "number"), [st], {})
                want = [] if I.truth(I.call(ref(I, STATUSREF, "in_range"), [n], {})) else [(("status",), 12, False)]
            except AbsRaise:
                want = [(("status",), 12, True)]
        same_issues(I, iss, want, "an error's status that is read")
        if not want and k == "str":
            g = I.getitem(r, I.call(F.Rep, [], {"attr": "status"}))
            expect(same(I, g, n) or same(I, g, st), f"the status of an error is read as {g!r}")
    ctx.case(I, "errors that are read", read)

    VC, VS = ctx.get(I, RV + "validate_error_status_code"), ctx.get(I, RV + "validate_error_status_code_consistency")

    def parts(I):
        code = opaque(I, "status code", kinds=["int"])
        R = lambda n, *a: I.truth(I.call(ref(I, STATUSREF, n), list(a), {}))
        same_issues(I, I.call(VC, [code], {}), [] if R("in_range", code) else [(("status",), 12, False)], "error status")
        st = opaque(I, "body status", kinds=["str"])
        iss = I.call(VS, ["status", st, code], {})
        t = I.call(ref(I, STATUSREF, "text"), [code], {})
        same_issues(I, iss, [] if R("same", t, st) else [(("body", "status"), 13, False), (("status",), 13, False)], "status in the body")
    ctx.case(I, "error status", parts)

    VL, VH, VT = (ctx.get(I, RV + n) for n in ("validate_resource_location_consistency", "validate_resource_location_in_header", "validate_status_code"))

    def small(I):
        a, b = opaque(I, "a", kinds=["str"]), opaque(I, "b", kinds=["str"])
        iss = I.call(VL, [], {"meta_location": a, "headers_location": b})
        same_issues(I, iss, [] if I.eq(a, b) else [(("body", "meta", "location"), 11, False), (("headers", "Location"), 11, False)], "location")
        x, y = opaque(I, "x", kinds=["int"]), opaque(I, "y", kinds=["int"])
        same_issues(I, I.call(VT, [], {"expected": x, "actual": y}), [] if I.eq(x, y) else [((), 16, False)], "status code")
        h = pick(I, "headers", ["none", "empty", "location", "other", "text"])
        req = pick(I, "required", [True, False])
        hv = {"none": None, "text": "Location"}.get(h, 0)
        if hv == 0:
            hv = I.new_dict({"empty": [], "location": [("Location", a)], "other": [("location", a)]}[h])
        same_issues(I, I.call(VH, [], {"headers": hv, "header_required": req}),
                    [(("Location",), 10, True)] if req and h != "location" else [], f"header {h}")
    ctx.case(I, "response rules one by one", small)


def c17(ctx):
    F = Fix(ctx)
    ctx.rule("response of one resource: the status must be the operation's, a created resource needs a Location header, a Location header must equal "
             "meta.location (unless that was rejected), required attributes must be present or the given checker is applied; 204 of a PATCH only when no attributes "
             "were requested; deletion is 204 without body; an error's status is 300..599 and repeated in the body")
    responses(ctx, F)
    errors(ctx, F)
