"""C01, C02, C20: whole messages through the endpoints with the shipped schemas; one part of the message is anything at all."""
import zlib

from .common import *
from pyai.values import AbsRaise
from .schemas import plain
from .shipped import SCHEMAS, COMMON, CORE, MSG, declared

RV = "src.request_validators:"
DECL = {n.split(":")[1]: {k.lower(): v for k, v in declared(t[1]).items()} for n, t in SCHEMAS.items()}

DATE = "2020-01-01T00:00:00+00:00"
THING_TEXT = COMMON + """
userName String req unique
active Boolean
age Integer
score Decimal
born DateTime
site ExternalReference ->external
cert Binary
tags String multi
name Complex
name.familyName String
name.rank Integer ro
emails Complex multi
emails.value String
emails.type String !{work home}
emails.primary Boolean
"""
EXT_TEXT = """
number String req
boss Complex
boss.value String
boss.level Integer
"""
ENT = "urn:x:extension:Thing"
THING_URN = "urn:x:core:Thing"
DECL["User"] = {k.lower(): v for k, v in declared(THING_TEXT).items()}
DECL["Enterprise"] = {k.lower(): v for k, v in declared(EXT_TEXT).items()}
USER = {
    "schemas": [THING_URN, ENT], "id": "1", "externalId": "e", "userName": "u", "active": True, "age": 5, "score": 0.5, "born": DATE, "site": "https://example.com/u",
    "tags": ["a", "b"],
    "meta": {"resourceType": "User", "created": DATE, "location": "https://example.com/Users/1", "version": "v"},
    "name": {"familyName": "f", "rank": 1}, "emails": [{"value": "a@example.com", "type": "work", "primary": True}, {"value": "b@example.com"}],
    ENT: {"number": "5", "boss": {"value": "m", "level": 3}},
}
SMALL = {"schemas": [THING_URN, ENT], "id": "1", "userName": "u", "meta": {"resourceType": "User", "location": "https://example.com/Users/1"},
         "emails": [{"value": "a@example.com", "primary": True}], ENT: {"number": "5"}}
GROUP = {"schemas": [CORE + "Group"], "id": "2", "displayName": "g", "meta": {"resourceType": "Group", "location": "https://example.com/Groups/2"},
         "members": [{"value": "1", "$ref": "https://example.com/Users/1"}]}
SCHEMA_DOC = {"schemas": [CORE + "Schema"], "id": CORE + "Group", "name": "Group", "meta": {"resourceType": "Schema"},
              "attributes": [{"name": "a", "type": "complex", "multiValued": True, "required": False, "mutability": "readWrite", "returned": "default", "uniqueness": "none",
                              "subAttributes": [{"name": "b", "type": "string", "multiValued": False, "required": False, "caseExact": True, "mutability": "readWrite",
                                                 "returned": "default", "uniqueness": "none"}]}]}
TYPE_DOC = {"schemas": [CORE + "ResourceType"], "id": "User", "name": "User", "endpoint": "https://example.com/Users", "schema": CORE + "User",
            "schemaExtensions": [{"schema": ENT, "required": True}], "meta": {"resourceType": "ResourceType"}}


def without(d, *names):
    return {k: v for k, v in d.items() if k not in names}


def listing(*resources):
    return {"schemas": [MSG + "ListResponse"], "totalResults": len(resources), "startIndex": 1, "itemsPerPage": len(resources), "Resources": list(resources)}


PATCH = {"schemas": [MSG + "PatchOp"], "Operations": [
    {"op": "add", "path": "emails", "value": [{"value": "c@example.com", "type": "home"}]},
    {"op": "replace", "path": "name.familyName", "value": "f"},
    {"op": "replace", "value": {"userName": "n", "name": {"familyName": "g"}, ENT: {"number": "7"}}},
    {"op": "remove", "path": 'emails[type eq "work"]'},
    {"op": "add", "path": 'emails[type eq "work"].value', "value": "d@example.com"}]}
BULK = {"schemas": [MSG + "BulkRequest"], "failOnErrors": 2, "Operations": [
    {"method": "POST", "path": "/Users", "bulkId": "q", "data": without(SMALL, "id", "meta")},
    {"method": "PUT", "path": "/Groups/2", "version": "v", "data": GROUP},
    {"method": "PATCH", "path": "/Users/1", "data": {"schemas": [MSG + "PatchOp"], "Operations": [{"op": "add", "path": "userName", "value": "n"}]}},
    {"method": "DELETE", "path": "/Users/1"}]}
BULK_OUT = {"schemas": [MSG + "BulkResponse"], "Operations": [
    {"method": "POST", "bulkId": "q", "location": "https://example.com/Users/1", "status": "201", "response": SMALL},
    {"method": "PUT", "location": "https://example.com/Groups/2", "status": "200", "version": "v", "response": GROUP},
    {"method": "DELETE", "location": "https://example.com/Users/1", "status": "204"},
    {"method": "PATCH", "location": "https://example.com/Users/9", "status": "404", "response": {"schemas": [MSG + "Error"], "status": "404", "detail": "no"}}]}
SEARCH = {"schemas": [MSG + "SearchRequest"], "attributes": ["userName", "emails.value"], "filter": 'userName eq "x"', "sortBy": "userName", "sortOrder": "descending", "startIndex": 1, "count": 5}
ERROR = {"schemas": [MSG + "Error"], "status": "404", "scimType": "noTarget", "detail": "no"}

# message -> endpoint class, schemas it is made for, method, schema of the body, body, other arguments
LOC = {"Location": "https://example.com/Users/1"}
MESSAGES = {
    "create request": ("ResourcesPOST", "User", "parse_request", "User", without(USER, "id", "meta"), {}),
    "create response": ("ResourcesPOST", "User", "dump_response", "User", USER, {"status_code": 201, "headers": LOC}),
    "replace request": ("ResourceObjectPUT", "User", "parse_request", "User", USER, {}),
    "replace response": ("ResourceObjectPUT", "Group", "dump_response", "Group", GROUP, {"status_code": 200}),
    "read response": ("ResourceObjectGET", "User", "dump_response", "User", USER, {"status_code": 200}),
    "modify request": ("ResourceObjectPATCH", "User", "parse_request", "PatchOp", PATCH, {}),
    "modify response": ("ResourceObjectPATCH", "User", "dump_response", "User", SMALL, {"status_code": 200}),
    "list response": ("ResourcesGET", "User", "dump_response", "ListResponse", listing(SMALL, SMALL), {"status_code": 200}),
    "list response of several types": ("ServerRootResourceGET", "User Group", "dump_response", "ListResponse", listing(SMALL, GROUP), {"status_code": 200}),
    "list of schemas": ("SchemasGET", "", "dump_response", "ListResponse", listing(SCHEMA_DOC), {"status_code": 200}),
    "list of resource types": ("ResourceTypesGET", "", "dump_response", "ListResponse", listing(TYPE_DOC), {"status_code": 200}),
    "search request": ("SearchRequestPOST", "User Group", "parse_request", "SearchRequest", SEARCH, {}),
    "search response": ("SearchRequestPOST", "User Group", "dump_response", "ListResponse", listing(GROUP), {"status_code": 200}),
    "bulk request": ("BulkOperations", "User Group", "parse_request", "BulkRequest", BULK, {}),
    "bulk response": ("BulkOperations", "User Group", "dump_response", "BulkResponse", BULK_OUT, {"status_code": 200}),
    "error": ("Error", None, "dump_response", "Error", ERROR, {"status_code": 404}),
}
SPECIAL = {"SchemasGET": ("Schema",), "ResourceTypesGET": ("ResourceType",)}


def locations(d, pre=()):
    yield pre
    if isinstance(d, dict):
        for k, v in d.items():
            yield from locations(v, pre + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from locations(v, pre + (i,))


EXTRA = {"create request": [("cert",)], "read response": [("cert",)], "replace request": [(ENT, "boss", "unheard")], "create response": [("unheard",)]}


def put(d, loc, v):
    if not loc:
        return v
    if len(loc) == 1 and isinstance(d, dict):
        return {**d, loc[0]: v}
    if isinstance(d, dict):
        return {k: put(x, loc[1:], v) if k == loc[0] else x for k, x in d.items()}
    return [put(x, loc[1:], v) if i == loc[0] else x for i, x in enumerate(d)]


def drop(d, loc):
    if len(loc) == 1:
        return {k: v for k, v in d.items() if k != loc[0]} if isinstance(d, dict) else [v for i, v in enumerate(d) if i != loc[0]]
    if isinstance(d, dict):
        return {k: drop(x, loc[1:]) if k == loc[0] else x for k, x in d.items()}
    return [drop(x, loc[1:]) if i == loc[0] else x for i, x in enumerate(d)]


def at(d, loc):
    for x in loc:
        d = d[x]
    return d


RES = {THING_URN: "User", **{CORE + n: n for n in ("Group", "Schema", "ResourceType")}}


def declared_at(schema, doc, loc):
    """(declaration, is the value of the whole attribute) at a location of a document, None if undetermined"""
    if not loc:
        return {"type": "Complex", "multi_valued": False}, True
    name, rest = loc[0], loc[1:]
    D = DECL[schema]
    if name == ENT:
        if not rest:
            return {"type": "Complex", "multi_valued": False}, True
        return declared_at("Enterprise", doc[name], rest)
    d = D.get(name.lower())
    if d is None:
        return None
    if not rest:
        return d, True
    v = doc[name]
    if schema == "ListResponse" and name == "Resources":
        if len(rest) == 1:
            return {"type": "Complex", "multi_valued": False}, True
        r = v[rest[0]]
        return declared_at(RES[r["schemas"][0]], r, rest[1:])
    if d["multi_valued"]:
        item, rest = v[rest[0]], rest[1:]
        if not rest:
            return d, False
    else:
        item = v
    if d["type"] != "Complex":
        return None
    sub = D.get(name.lower() + "." + rest[0].lower())
    if sub is None:
        return None
    sv, srest = item[rest[0]], rest[1:]
    if not srest:
        if sub["type"] == "Unknown" and schema in ("BulkRequest", "BulkResponse"):
            return {"type": "Complex", "multi_valued": False}, True
        if schema == "PatchOp" and rest[0] == "value":
            p = item.get("path")
            return {None: ({"type": "Complex", "multi_valued": False}, True), "emails": None, "name.familyName": (DECL["User"]["name.familyname"], True),
                    'emails[type eq "work"].value': (DECL["User"]["emails.value"], True), "userName": (DECL["User"]["username"], True)}.get(p)
        return sub, True
    if schema == "PatchOp" and rest[0] == "value":
        if item.get("path") is None:
            return declared_at("User", sv, srest)
        if item["path"] == "emails":
            return declared_at("User", {"emails": sv}, ("emails",) + srest)
        return None
    if schema == "BulkRequest" and rest[0] == "data" or schema == "BulkResponse" and rest[0] == "response":
        m = sv["schemas"][0]
        return declared_at(RES.get(m) or {MSG + "PatchOp": "PatchOp", MSG + "Error": "Error"}[m], sv, srest)
    if sub["type"] == "Unknown" and schema == "Schema":
        return declared_at("Schema", {"attributes": sv}, ("attributes",) + srest)
    if sub["multi_valued"] and len(srest) == 1:
        return sub, False
    return None


PARSED = {"path": ["", "x y", "emails[", "a.b.c", "/Users/", "no"], "filter": ["", "x y", "userName eq", "(a pr", "no"], "sortBy": ["", "x y", "emails.unheard", "no"],
          "attributes": ["", "x y", "a.b.c", "no", ",", "no,name.familyName"], "excludeAttributes": ["", "x y", "a.b.c", "no", ","]}      # texts that are parsed further: representatives, see C12, C16 and C26 for these


def any_values(I, loc=()):
    name = next((x for x in reversed(loc) if isinstance(x, str)), None)

    def s(k):
        if k == "str" and name in PARSED:
            return pick(I, "text", PARSED[name])
        return I.sym("anything", k, kinds=[k])
    return {
        "null": lambda: None, "a boolean": lambda: pick(I, "boolean", [True, False]), "an integer": lambda: s("int"), "a number": lambda: s("float"), "a fraction": lambda: 1.5, "a text": lambda: s("str"),
        "an empty list": lambda: [], "a list of texts": lambda: [s("str")], "a list of numbers": lambda: [s("int")], "an empty object": lambda: {}, "an object": lambda: {"unheard": s("int")},
        "a list of empty objects": lambda: [{}], "a list of null": lambda: [None], "a list of lists": lambda: [[]], "an object with value": lambda: {"value": s("int")},
        "a list of objects with value": lambda: [{"value": s("int"), "primary": True}, {"value": [], "primary": True}],
    }


FITS = {"Boolean": {"a boolean"}, "Integer": {"an integer", "a number"}, "Decimal": {"an integer", "a number", "a fraction"}, "Complex": {"an empty object", "an object", "an object with value"}}
LIST_FITS = {"Complex": {"a list of empty objects", "a list of objects with value"}}


def wrong(decl, whole, n):
    """the value is of a wrong JSON type for the attribute: it has to be reported"""
    if decl["type"] == "Unknown" or n == "null":
        return False
    fits = FITS.get(decl["type"], {"a text"})
    if decl["multi_valued"] and whole:
        if n == "an empty list":
            return False
        return n not in LIST_FITS.get(decl["type"], {"a list of texts"}) if not n.startswith("a list of null") else False
    return n not in fits


def thing(ctx, I):
    """a resource schema with every data type"""
    A, T = "src.data.attributes:", "src.data.type:"
    M, U, Rt, Is = (enum(I, A + "Attribute" + n) for n in ("Mutability", "Uniqueness", "Return", "Issuer"))
    by = lambda e, v: next(x for x in e.values() if I.norm(I.getattr(x, "value")) == v)

    def attr(D, n):
        d = D[n]
        kw = {"name": n.split(".")[-1], "required": d["required"], "multi_valued": d["multi_valued"], "mutability": by(M, d["mutability"]), "uniqueness": by(U, d["uniqueness"]),
              "returned": by(Rt, d["returned"])}
        if d["type"] == "Complex":
            return I.call(ctx.get(I, A + "ComplexAttribute"), [], {"sub_attributes": I.new_list([attr(D, k) for k in D if k.startswith(n + ".")]), **kw})
        if d["canon"]:
            kw.update(canonical_values=I.new_list(list(d["canon"])), validate_canonical_values=d["enforced"])
        return I.call(ctx.get(I, A + "Attribute"), [], {"type_": ctx.get(I, T + d["type"]), "case_exact": d["case_exact"], **kw})
    own = lambda text: (lambda D: I.new_list([attr(D, n) for n in D if "." not in n]))(declared(text))
    s = I.call(ctx.get(I, "src.data.schemas:ResourceSchema"), [THING_URN], {"attrs": own(THING_TEXT[len(COMMON):]), "name": "User", "plural_name": "Users"})
    meth(I, s, "with_extension", I.call(ctx.get(I, "src.data.schemas:SchemaExtension"), [ENT], {"attrs": own(EXT_TEXT), "name": "Thing extension"}))
    return s


class Whole:
    def __init__(self, ctx, key=""):
        self.ctx = ctx
        self.I = I = ctx.interp(native_cont=False, key=key)
        mk = lambda I, n, *a, **kw: I.call(ctx.get(I, n), list(a), kw)

        def build(I):
            config = mk(I, "src.assets.config:create_service_provider_config", bulk=I.new_dict([("supported", True), ("max_operations", 10), ("max_payload_size", 10)]))
            S = {"User": thing(ctx, I), "Group": mk(I, "src.assets.schemas.group:Group")}
            out = {}
            for m, (cls, schemas, *_) in MESSAGES.items():
                k = (cls, schemas)
                if k in out:
                    continue
                c = ctx.get(I, RV + cls)
                if schemas is None:
                    out[k] = I.call(c, [], {})
                elif not schemas:
                    out[k] = I.call(c, [config], {})
                elif " " in schemas or cls in ("BulkOperations", "SearchRequestPOST", "ServerRootResourceGET"):
                    out[k] = I.call(c, [config], {"resource_schemas": I.new_list([S[x] for x in schemas.split()])})
                else:
                    out[k] = I.call(c, [config], {"resource_schema": S[schemas]})
            return out
        self.endpoints = ctx.setup(I, build)
        self.cases = []
        for m, (cls, schemas, method, schema, body, kw) in MESSAGES.items():
            for loc in [*locations(body), *EXTRA.get(m, [])]:
                self.cases.append((m, loc))

    def send(self, I, m, body, objects={}, message=None):
        cls, schemas, method, schema, _, kw = message or MESSAGES[m]
        base = I.serial
        I.serial = 0            # the message is the caller's: changes to it are effects
        if method == "dump_response":       # produced data holds date-times, not their texts
            def dates(x):
                if isinstance(x, dict):
                    return {k: dates(v) for k, v in x.items()}
                if isinstance(x, list):
                    return [dates(v) for v in x]
                return I.sym("some date-time", kinds=["datetime"]) if x == DATE else x
            body = dates(body)
        doc = jd(I, body)
        h = {k: jd(I, v) if isinstance(v, (dict, list)) else v for k, v in kw.items()}
        I.serial = base
        h.setdefault("headers", None)
        self.message = (doc, {k: v for k, v in h.items()}, body, dict(kw))
        h.update(objects)
        r, iss = pair(I, meth(I, self.endpoints[(cls, schemas)], method, body=doc, **h))
        return r, iss

    def vary(self, I, chunk):
        """a message with one part replaced; the part and what it became"""
        m, loc = chunk
        body = MESSAGES[m][4]
        vals = any_values(I, loc)
        n = pick(I, "value", list(vals) + (["absent"] if loc else []))
        return m, loc, n, drop(body, loc) if n == "absent" else put(body, loc, vals[n]())


def holds_invalid(I, v, depth=0):
    v = I.norm(v)
    if same(I, v, I.Invalid):
        return True
    if isinstance(v, ADict):
        return any(holds_invalid(I, x, depth + 1) for _, x in v.items.values())
    if isinstance(v, AList):
        return any(holds_invalid(I, x, depth + 1) for x in v.items if not isinstance(x, Rest))
    if isinstance(v, AObj) and v.cls.name == "SCIMDataContainer":
        return any(holds_invalid(I, x, depth + 1) for x in v.attrs.values())
    return False


def show(m, loc, n):
    return f"{m} with {n} as {'.'.join(map(str, loc)) or 'body'}"


def c01(ctx):
    W = Whole(ctx)
    I = W.I
    ctx.rule("no message makes processing raise; a message with findings has no usable body; one without has a body in which nothing is marked invalid")

    def run(I):
        m, loc, n, body = W.vary(I, pick(I, "part of the message", W.cases))
        r, iss = W.send(I, m, body)
        es, ts = entries(I, iss)
        b = I.norm(I.getattr(r, "body"))
        if es or ts:
            expect(b is None, f"{show(m, loc, n)}: findings are reported, yet there is a body")
        else:
            expect(b is not None or m == "create response" and not loc and n in ("null", "absent"), f"{show(m, loc, n)}: nothing is reported, yet there is no body")
            expect(not holds_invalid(I, b), f"{show(m, loc, n)}: nothing is reported, yet the body holds invalid data")
    ctx.case(I, "any message", run, max_paths=60000)

    ENDPOINTS = {k: v for k, v in {
        "list request": ("ResourcesGET", "User", None), "list request at the root": ("ServerRootResourceGET", "User Group", None), "read request": ("ResourceObjectGET", "User", None),
        "request for schemas": ("SchemasGET", "", None), "create request": ("ResourcesPOST", "User", without(SMALL, "id", "meta")), "replace request": ("ResourceObjectPUT", "Group", GROUP),
        "modify request": ("ResourceObjectPATCH", "User", {"schemas": [MSG + "PatchOp"], "Operations": [{"op": "add", "path": "userName", "value": "n"}]}),
        "bulk request": ("BulkOperations", "User Group", BULK), "search request": ("SearchRequestPOST", "User Group", SEARCH)}.items()}

    def query(I):
        e = pick(I, "request", ENDPOINTS)
        cls, schemas, body = ENDPOINTS[e]
        read = cls in ("ResourcesGET", "ServerRootResourceGET")
        k = pick(I, "parameter", ["the query string", "attributes", "excludeAttributes", *(["filter", "sortBy", "sortOrder", "startIndex", "count"] if read else []),
                                  *(["filter"] if cls == "SchemasGET" else []), "unheard"])
        vals = any_values(I, () if k == "the query string" else (k,))
        if read:
            vals.update({f"the number {x}": (lambda x=x: float(x)) for x in ("inf", "-inf", "nan")}, **{"a digit": lambda: "1", "digits": lambda: "-5"})
        n = pick(I, "value", list(vals))
        q = vals[n]()
        if k != "the query string":
            q = {k: q, **({"sortBy": "userName"} if k == "sortOrder" else {})}
        elif n in ("an object", "an object with value", "a boolean", "an integer", "a number", "a text") or n.startswith(("a list", "the ", "a digit", "digits", "an empty list")):
            raise Skip("a query string is a mapping or absent")
        r, iss = pair(I, meth(I, W.endpoints[(cls, schemas)], "parse_request", **({} if body is None else {"body": jd(I, body)}), query_string=jd(I, q)))
        es, ts = entries(I, iss)
        b, what = I.norm(I.getattr(r, "body")), f"{e} with {n} as {k}"
        if es or ts:
            expect(b is None, f"{what}: findings are reported, yet there is a body")
        else:
            expect(body is None or b is not None, f"{what}: nothing is reported, yet there is no body")
            expect(not holds_invalid(I, b) and not holds_invalid(I, I.getattr(r, "query_string")), f"{what}: nothing is reported, yet the result holds invalid data")
    ctx.case(I, "any query string", query, max_paths=20000)

    def headers(I):
        """responses with any headers"""
        m = pick(I, "response", [k for k, v in MESSAGES.items() if v[2] == "dump_response"])
        k = pick(I, "header", ["the headers", "Location", "unheard"])
        vals = any_values(I)
        n = pick(I, "value", [x for x in vals if k != "the headers" or x in ("null", "an empty object", "an object")])
        h = vals[n]() if k == "the headers" else {k: vals[n]()}
        cls, schemas, method, schema, body, kw = MESSAGES[m]
        r, iss = W.send(I, m, body, {"headers": jd(I, h)})
        es, ts = entries(I, iss)
        b = I.norm(I.getattr(r, "body"))
        expect((b is None) == bool(es or ts), f"{m} with {n} as {k}: {'findings are reported' if es or ts else 'nothing is reported'}, yet there is {'no' if b is None else 'a'} body")
    ctx.case(I, "any headers", headers, max_paths=20000)


def comparable(a, b):
    n = min(len(a), len(b))
    return [str(x).lower() for x in a[:n]] == [str(x).lower() for x in b[:n]]


TYPED = ("create request", "read response", "replace request", "modify request", "list response of several types", "list of schemas", "list of resource types", "search request",
         "bulk request", "bulk response", "error")


def server_set(m, loc):
    """values a client's message may hold that the service ignores"""
    return m.endswith("request") and bool({"id", "meta", "rank"} & {x for x in loc if isinstance(x, str)})


def c02(ctx):
    W = Whole(ctx)
    I = W.I
    ctx.rule("a message that conforms to its schema has no finding; a value of a wrong JSON type is reported at its location and nowhere else")
    cases = [c for c in W.cases if c[0] in TYPED]

    def run(I):
        m, loc = pick(I, "part of the message", cases)
        body, schema = MESSAGES[m][4], MESSAGES[m][3]
        if not loc and pick(I, "unchanged", [True, False]):
            r, iss = W.send(I, m, body)
            es, ts = entries(I, iss)
            expect(not es and not ts, f"{m} that conforms is reported: {es}")
            return
        d = None
        try:
            d = declared_at(schema, body, loc)
        except (KeyError, IndexError, TypeError):
            pass
        if d is None:
            raise Skip("undeclared")
        vals = any_values(I, loc)
        n = pick(I, "value", [k for k in vals if wrong(d[0], d[1], k)])
        if server_set(m, loc):
            raise Skip("ignored in requests")
        r, iss = W.send(I, m, put(body, loc, vals[n]()))
        es, ts = entries(I, iss)
        locs = [e[0] for e in es]
        there = ("body",) + loc
        expect(any(comparable(x, there) for x in locs), f"{show(m, loc, n)}: not reported (findings: {locs})")
        expect(all(comparable(x, there) for x in locs), f"{show(m, loc, n)}: reported elsewhere too: {[x for x in locs if not comparable(x, there)]}")
    ctx.case(I, "a value of a wrong type in any message", run, max_paths=60000)


def intact(I, v, was):
    v = I.norm(v)
    if isinstance(was, dict):
        return isinstance(v, ADict) and v.open is None and [k for k, _ in v.items.values()] == list(was) and all(intact(I, x, was[k]) for k, x in v.items.values())
    if isinstance(was, list):
        return isinstance(v, AList) and len(v.items) == len(was) and all(intact(I, x, y) for x, y in zip(v.items, was))
    return same(I, v, was)


QUERY = {"attributes": "userName,emails.value", "filter": 'userName eq "u"', "sortBy": "userName", "sortOrder": "descending", "count": 5, "startIndex": 1}
CALLS = {      # calls with a query string or with what was read from one
    "list request": ("ResourcesGET", "User", "parse_request", None, None, {"query_string": QUERY}),
    "list request at the root": ("ServerRootResourceGET", "User Group", "parse_request", None, None, {"query_string": without(QUERY, "attributes")}),
    "read request": ("ResourceObjectGET", "User", "parse_request", None, None, {"query_string": {"excludeAttributes": "emails,name.familyName"}}),
    "create request with query": ("ResourcesPOST", "User", "parse_request", "User", without(USER, "id", "meta"), {"query_string": {"attributes": "userName"}, "headers": {"X": ["y"]}}),
    "replace request with query": ("ResourceObjectPUT", "User", "parse_request", "User", USER, {"query_string": {"attributes": "userName"}}),
    "modify request with query": ("ResourceObjectPATCH", "User", "parse_request", "PatchOp", PATCH, {"query_string": {"attributes": "userName"}}),
    "list response to a query": ("ResourcesGET", "User", "dump_response", "ListResponse", listing({**without(SMALL, ENT, "meta"), "schemas": [THING_URN], "userName": "v"}, SMALL), {"status_code": 200}),
    "list response of several types to a query": ("ServerRootResourceGET", "User Group", "dump_response", "ListResponse", listing(SMALL, SMALL), {"status_code": 200}),
    "create response with an empty Location": ("ResourcesPOST", "User", "dump_response", "User", SMALL, {"status_code": 201, "headers": {"Location": "", "X": "y"}}),
    "create response with no Location": ("ResourcesPOST", "User", "dump_response", "User", SMALL, {"status_code": 201, "headers": {"Location": None}}),
    "read response to a query": ("ResourceObjectGET", "User", "dump_response", "User", SMALL, {"status_code": 200}),
}


def c20(ctx):
    W = Whole(ctx)
    I = W.I
    ctx.rule("processing leaves the caller's message, query string and headers as they were, and the result does not depend on what was processed before")
    made = ctx.setup(I, lambda I: {
        "filter_": pair(I, I.call(I.getattr(ctx.get(I, "src.filter:Filter"), "parse"), ['emails.value pr or userName eq "u" or emails[type eq "work"]'], {}))[0],
        "sorter": I.call(ctx.get(I, "src.sorter:Sorter"), [I.call(ctx.get(I, "src.data.container:AttrRep"), [], {"attr": "userName"})], {"asc": False}),
        "presence_checker": I.call(ctx.get(I, "src.attributes_presence:AttributePresenceChecker"), [],
                                   {"attr_reps": I.new_list([I.call(ctx.get(I, "src.data.container:AttrRep"), [], {"attr": a}) for a in ("name", "tags")]), "include": False})})
    needs = {m: [k for k in made if ("list" in m or k == "presence_checker")] if m.endswith("response to a query") or "types to a query" in m else [] for m in CALLS}
    kinds = ["null", "an integer", "an object", "a list of empty objects", "absent"]

    def run(I):
        what = pick(I, "message", [*W.cases, *CALLS])
        if isinstance(what, str):
            m, body, objects, message = what, CALLS[what][4], {k: made[k] for k in needs[what]}, CALLS[what]
            name = what
        else:
            (m, loc), objects, message = what, {}, MESSAGES[what[0]]
            n = pick(I, "value", [k for k in kinds if loc or k != "absent"])
            body = drop(message[4], loc) if n == "absent" else put(message[4], loc, any_values(I, loc)[n]())
            name = show(m, loc, n)

        def go(m, body, objects, message):
            if message[4] is None:
                cls, schemas, method, _, _, kw = message
                base, I.serial = I.serial, 0
                h = {k: jd(I, v) for k, v in kw.items()}
                I.serial = base
                W.message = (None, h, None, kw)
                r, iss = pair(I, meth(I, W.endpoints[(cls, schemas)], method, **h))
            else:
                r, iss = W.send(I, m, body, objects, message)
            return r, entries(I, iss)
        try:
            r, found = go(m, body, objects, message)
        except AbsRaise:
            raise Skip("C01")
        doc, given, was, kw = W.message
        expect(intact(I, doc, was), f"{name}: the caller's message is changed by processing it")
        for k, v in kw.items():
            expect(intact(I, given[k], v), f"{name}: the caller's {k} are changed by processing them")
        mine = set()

        def walk(x):
            x = I.norm(x)
            if id(x) in mine or not isinstance(x, (ADict, AList)):
                return
            mine.add(id(x))
            for y in ([v for _, v in x.items.values()] if isinstance(x, ADict) else x.items):
                walk(y)
        walk(doc)
        for v in given.values():
            walk(v)
        left = [(o, w) for o, w in I.R.effects if id(o) not in mine]
        if left:        # something that outlives the call was changed: it must not show
            o, w = left[0]
            src = f" ({getattr(getattr(o, 'cls', o), 'name', o)} changed at {w})"
            r2, again = go(m, body, objects, message)
            expect(again == found, f"{name}: the second time, the findings differ{src}")
            expect(deep_same(I, I.getattr(r, "body"), I.getattr(r2, "body")), f"{name}: the second time, the result differs{src}")
            alike = [x for x in MESSAGES if MESSAGES[x][1] == message[1]]
            turn = zlib.crc32(name.encode())
            for x in sorted({alike[turn % len(alike)], alike[turn // 7 % len(alike)]}) if alike else ():
                    _, (es, ts) = go(x, MESSAGES[x][4], {}, MESSAGES[x])
                    expect(not es and not ts, f"{x} is reported after {name} was processed: {es}{src}")
    ctx.case(I, "any message", run, max_paths=60000)

    def extended(I):
        """schemas share attributes and extensions; each is extended on its own, before or after it is used"""
        A, Cx, S = (ctx.get(I, "src.data." + n) for n in ("attributes:Attribute", "attributes:ComplexAttribute", "type:String"))
        shared = [I.call(A, [], {"name": "x", "type_": S}), I.call(Cx, [], {"name": "c", "sub_attributes": I.new_list([I.call(A, [], {"name": "s", "type_": S})])})]
        mk = lambda u: I.call(ctx.get(I, "src.data.schemas:ResourceSchema"), [u], {"name": "N", "attrs": I.new_list(list(shared))})
        ext = I.call(ctx.get(I, "src.data.schemas:SchemaExtension"), ["urn:e"], {"name": "E", "attrs": I.new_list(list(shared))})
        s = {u: mk(u) for u in ("urn:one", "urn:two")}
        steps = pick(I, "steps", [("use one", "extend one", "use one"), ("extend one", "use two", "use one"), ("extend one", "use one", "use two"), ("extend one", "extend two", "use one", "use two"),
                                  ("use one", "use two", "extend two", "use one", "use two"), ("extend two", "use one", "use two", "extend one", "use one")])
        bad = pick(I, "value of the sub-attribute", ["text", "number"])
        known = set()
        for step in steps:
            do, n = step.split()
            u = "urn:" + n
            if do == "extend":
                meth(I, s[u], "with_extension", ext)
                known.add(u)
                continue
            v = "t" if bad == "text" else 5
            d = {"schemas": [u, "urn:e"], "id": "1", "x": "a", "c": {"s": v}, "urn:e": {"x": "b", "c": {"s": v}}}
            r, iss = pair(I, meth(I, s[u], pick(I, "direction", ["parse", "dump"]), jd(I, d)))
            want = [(("c", "s"), 2)] if bad == "number" else []
            if u in known:
                want += [(("urn:e", "c", "s"), 2)] if bad == "number" else []
            else:
                want.append((("schemas",), 27))
            es, ts = entries(I, iss)
            got = sorted(((l, c) for l, c, _ in es if c != 15), key=str)
            expect(not ts and got == sorted(want, key=str), f"after {steps}, {step} reports {got}, should report {want}")
            if bad == "text":
                out = plain(I, meth(I, r, "to_dict"))
                e = out.get("urn:e")
                expect(out.get("x") == "a" and out.get("c") == {"s": "t"} and (e == {"x": "b", "c": {"s": "t"}} if u in known else e is None), f"after {steps}, {step} gives {out}")
    ctx.case(I, "schemas extended before and after use", extended)
