"""C23: the shipped schemas are the ones of the standard."""
from .common import *

T = "src.data.type:"
A = "src.data.attributes:"
ENT = "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"
CORE = "urn:ietf:params:scim:schemas:core:2.0:"
MSG = "urn:ietf:params:scim:api:messages:2.0:"

# One line per attribute: name, data type, what differs from (optional, single-valued, not case exact, readWrite, returned by default, not unique).
#   req: required, multi, exact: case exact, ro/im/wo: mutability, always/never: returned, unique: by server, client/server: issuer of a required attribute,
#   ->a,b: reference types, {a b}: suggested values, !{a b}: enforced values
COMMON_MSG = """
schemas URIReference req multi ro always ->uri
"""
COMMON = COMMON_MSG + """
id String req exact ro always unique server
externalId String exact
meta Complex ro
meta.resourceType String exact ro
meta.created DateTime ro
meta.lastModified DateTime ro
meta.location URIReference ro ->uri
meta.version String exact ro
"""
MULTI = """
{n} Complex multi
{n}.value {t}
{n}.display String
{n}.type String{c}
{n}.primary Boolean
"""
USER = COMMON + """
userName String req unique
name Complex
name.formatted String
name.familyName String
name.givenName String
name.middleName String
name.honorificPrefix String
name.honorificSuffix String
displayName String
nickName String
profileUrl ExternalReference ->external
title String
userType String
preferredLanguage String
locale String
timezone String
active Boolean
password String wo never
addresses Complex multi
addresses.formatted String
addresses.streetAddress String
addresses.locality String
addresses.region String
addresses.postalCode String
addresses.country String
addresses.type String {work home other}
groups Complex multi ro
groups.value String ro
groups.$ref URIReference ro ->uri
groups.display String ro
groups.type String ro {direct indirect}
""" + "".join(MULTI.format(n=n, t=t, c=c) for n, t, c in [
    ("emails", "String", " {work home other}"), ("phoneNumbers", "String", " {work home mobile fax pager other}"), ("ims", "String", ""),
    ("photos", "ExternalReference", " {photo thumbnail}"), ("entitlements", "String", ""), ("roles", "String", ""), ("x509Certificates", "Binary", "")]).replace(
        "photos.value ExternalReference", "photos.value ExternalReference ->external")
ENTERPRISE = """
employeeNumber String
costCenter String
organization String
division String
department String
manager Complex
manager.value String
manager.$ref SCIMReference ->User
manager.displayName String ro
"""
GROUP = COMMON + """
displayName String req
members Complex multi
members.value String im
members.$ref URIReference im ->uri
members.display String im
"""
NO_ID = COMMON.replace("id String req exact ro always unique server", "id String ro")
RESOURCE_TYPE = NO_ID + """
name String req ro server
description String ro
endpoint URIReference req ro server ->uri
schema String req ro server
schemaExtensions Complex multi ?mutability
schemaExtensions.schema String req ro server
schemaExtensions.required Boolean req ro server
"""
CONFIG = COMMON.replace("id String req exact ro always unique server", "id String exact ro always unique") + """
documentationUri ExternalReference ro ->external
authenticationSchemes Complex req multi ro
authenticationSchemes.type String req ro {oauth oauth2 oauthbearertoken httpbasic httpdigest}
authenticationSchemes.name String req ro
authenticationSchemes.description String req ro
authenticationSchemes.specUri ExternalReference ro ->external
authenticationSchemes.documentationUri ExternalReference ro ->external
bulk.maxOperations Integer req ro
bulk.maxPayloadSize Integer req ro
filter.maxResults Integer req ro
""" + "".join(f"{n} Complex req ro\n{n}.supported Boolean req ro\n" for n in ("patch", "bulk", "filter", "changePassword", "sort", "etag"))
SCHEMA = NO_ID + """
name String ro
description String ro
attributes Complex multi ro
attributes.name String req ro server
attributes.type String req ro server !{string integer decimal boolean reference dateTime binary complex}
attributes.subAttributes Unknown ro
attributes.multiValued Boolean req ro server
attributes.description String ro
attributes.required Boolean req ro server
attributes.canonicalValues Unknown multi ro
attributes.caseExact Boolean ro
attributes.mutability String req ro server !{readOnly readWrite immutable writeOnly}
attributes.returned String req ro server !{always never default request}
attributes.uniqueness String req ro server !{none server global}
attributes.referenceTypes String multi ro
"""
ERROR = COMMON_MSG + """
status String req always
scimType String always !{invalidFilter tooMany uniqueness mutability invalidSyntax invalidPath noTarget invalidValue invalidVers sensitive}
detail String always
"""
OPS = """
Operations Complex req multi
Operations.method String req exact !{GET POST PATCH PUT DELETE}
Operations.bulkId String
Operations.version String
"""
BULK_REQUEST = COMMON_MSG + OPS + """
failOnErrors Integer
Operations.path String req
Operations.data Unknown
"""
BULK_RESPONSE = COMMON_MSG + OPS + """
Operations.location ExternalReference ->external
Operations.status String req
Operations.response Unknown
"""
LIST = COMMON_MSG + """
totalResults Integer req
startIndex Integer
itemsPerPage Integer
Resources Unknown
"""
SEARCH = COMMON_MSG + """
attributes String multi
excludeAttributes String multi
filter String
sortBy String
sortOrder String {ascending descending}
startIndex Integer
count Integer
"""
PATCH = COMMON_MSG + """
Operations Complex req multi
Operations.op String req exact !{add remove replace}
Operations.path String
Operations.value Unknown
"""
SCHEMAS = {     # class -> urn, attributes, name, plural name
    "user:User": (CORE + "User", USER, "User", "Users"), "group:Group": (CORE + "Group", GROUP, "Group", "Groups"),
    "resource_type:ResourceType": (CORE + "ResourceType", RESOURCE_TYPE, "ResourceType", None),
    "service_provider_config:ServiceProviderConfig": (CORE + "ServiceProviderConfig", CONFIG, "ServiceProviderConfig", None),
    "schema:Schema": (CORE + "Schema", SCHEMA, "Schema", None),
    "error:Error": (MSG + "Error", ERROR, None, None), "bulk_ops:BulkRequest": (MSG + "BulkRequest", BULK_REQUEST, None, None),
    "bulk_ops:BulkResponse": (MSG + "BulkResponse", BULK_RESPONSE, None, None), "list_response:ListResponse": (MSG + "ListResponse", LIST, None, None),
    "search_request:SearchRequest": (MSG + "SearchRequest", SEARCH, None, None), "patch_op:PatchOp": (MSG + "PatchOp", PATCH, None, None),
}
MUT = {"ro": "readOnly", "im": "immutable", "wo": "writeOnly"}


def declared(text):
    out = {}
    for line in text.strip().splitlines():
        line = line.strip()
        if not line:
            continue
        d = {"required": False, "multi_valued": False, "case_exact": False, "mutability": "readWrite", "returned": "default", "uniqueness": "none", "issuer": "", "refs": (), "canon": (),
             "enforced": False, "skip": ()}
        if "{" in line:
            line, c = line.split("{")
            d["canon"] = tuple(c.rstrip("}").split())
            d["enforced"] = line.endswith("!")
            line = line.rstrip("!")
        name, d["type"], *words = line.split()
        for w in words:
            if w.startswith("->"):
                d["refs"] = tuple(w[2:].split(","))
            elif w.startswith("?"):
                d["skip"] += (w[1:],)
            elif w in MUT:
                d["mutability"] = MUT[w]
            elif w in ("always", "never"):
                d["returned"] = w
            elif w == "unique":
                d["uniqueness"] = "server"
            elif w in ("server", "client"):
                d["issuer"] = w.upper()
            else:
                d[{"req": "required", "multi": "multi_valued", "exact": "case_exact"}[w]] = True
        out[name] = d
    return out


def c23(ctx):
    I = ctx.interp(native_cont=False)
    ctx.rule("every shipped schema declares exactly the attributes of the standard, with their type, cardinality, case exactness, mutability, returned, uniqueness, suggested and enforced values")
    lst = ref(I, "def lst(x):\n    return [a for a in x]\ndef get(x, n):\n    return getattr(x, n)\n", "lst")
    const = lambda I, v: I.norm(v)
    value = lambda I, v: const(I, I.getattr(v, "value"))

    def build(I, name):
        cls = ctx.get(I, "src.assets.schemas." + name)
        args = []
        if name.startswith(("list", "patch")):
            u = I.call(ctx.get(I, "src.assets.schemas.user:User"), [], {})
            args = [I.new_list([u])] if name.startswith("list") else [u]
        return I.call(cls, args, {})

    built = ctx.setup(I, lambda I: {n: build(I, n) for n in SCHEMAS})

    def words(I, v):
        v = I.norm(v)
        return () if v is None else tuple(const(I, x) for x in I.items_of(v))

    def check(I):
        name = pick(I, "schema", SCHEMAS)
        urn, text, n, plural = SCHEMAS[name]
        s = built[name]
        label = name.split(":")[1]
        expect(const(I, I.getattr(s, "schema")) == urn, f"{label} has the URN {const(I, I.getattr(s, 'schema'))!r}")
        if n:
            expect(const(I, I.getattr(s, "name")) == n, f"{label} has the name {const(I, I.getattr(s, 'name'))!r}")
        if plural:
            expect(const(I, I.getattr(s, "plural_name")) == plural, f"{label} has the plural name {const(I, I.getattr(s, 'plural_name'))!r}")
        want = {(urn, k): v for k, v in declared(text).items()}
        if n == "User":
            want.update({(ENT, k): v for k, v in declared(ENTERPRISE).items()})
        got = {}
        for a in I.items_of(I.call(lst, [I.getattr(s, "attrs")], {})):
            r = I.getattr(a, "rep")
            sc, at_, sub = (const(I, I.getattr(r, x)) for x in ("schema", "attr", "sub_attr"))
            k = (sc, at_ + ("." + sub if sub else ""))
            expect(k not in got, f"{label} declares {k[1]} twice")
            got[k] = a
        expect(not set(want) - set(got), f"{label} lacks {sorted(k[1] for k in set(want) - set(got))}")
        expect(not set(got) - set(want), f"{label} declares {sorted(k[1] for k in set(got) - set(want))}, which the standard does not")
        for k in want:
            w, a = want[k], got[k]
            for c in ("required", "multi_valued", "case_exact"):
                v = const(I, I.getattr(a, c))
                expect(v is w[c], f"{label}: {k[1]} has {c}={v}, should be {w[c]}")
            for c in ("mutability", "returned", "uniqueness"):
                if c not in w["skip"]:
                    v = value(I, I.getattr(a, c))
                    expect(v == w[c], f"{label}: {k[1]} has {c} {v!r}, should be {w[c]!r}")
            t = I.getattr(a, "type")
            expect(I.norm(t) is ctx.get(I, T + w["type"]), f"{label}: {k[1]} is of type {I.norm(t)!r}, should be {w['type']}")
            if w["required"]:
                v = I.norm(I.getattr(a, "issuer"))
                server = v is enum(I, A + "AttributeIssuer")["SERVER"]
                expect(server == (w["issuer"] == "SERVER"), f"{label}: {k[1]} is {'' if server else 'not '}issued by the server")
            expect(set(words(I, I.getattr(a, "reference_types"))) == set(w["refs"]), f"{label}: {k[1]} refers to {words(I, I.getattr(a, 'reference_types'))}, should refer to {w['refs']}")
            low = (lambda x: x) if w["case_exact"] else str.lower
            cv = [low(x) for x in words(I, I.getattr(a, "canonical_values"))]
            expect(sorted(cv) == sorted(low(x) for x in w["canon"]), f"{label}: {k[1]} has canonical values {cv}, should have {w['canon']}")
            if w["canon"] and not w["multi_valued"]:
                for d in ("parse", "dump"):
                    for text_, ok in [(w["canon"][0], True), (w["canon"][-1], True), ("other value", not w["enforced"])]:
                        r, iss = pair(I, meth(I, a, d, text_))
                        es, ts = entries(I, iss)
                        expect(bool(not es and not ts) == ok, f"{label}: {k[1]} {'rejects' if ok else 'accepts'} {text_!r} ({d})")
        if n == "User":
            e = sorted(x for x in words(I, I.getattr(s, "schemas")))
            expect(e == sorted([urn, ENT]), f"User has the schemas {e}")
    ctx.case(I, "declared attributes", check)

    def published(I):
        name = pick(I, "schema", [n for n in SCHEMAS if SCHEMAS[n][2] and n != "schema:Schema"])
        s = built[name]
        rep = I.call(ctx.get(I, "src.data.schemas:get_schema_rep"), [s], {})
        S = built["schema:Schema"]
        r, iss = pair(I, meth(I, S, "dump", rep))
        same_issues(I, iss, [], f"published representation of {name.split(':')[1]}, processed as a schema resource")
    ctx.case(I, "published schemas are valid schema resources", published)

    def each_type(I):
        """the published representation of any attribute is accepted, whatever its characteristics"""
        types = ["Boolean", "Decimal", "Integer", "String", "Binary", "URIReference", "ExternalReference", "SCIMReference", "DateTime", "complex"]
        t = pick(I, "type", types)
        En = {n: enum(I, A + n) for n in ("AttributeMutability", "AttributeReturn", "AttributeUniqueness")}
        kw = {"name": "alpha"}
        chars = {"mutability": En["AttributeMutability"], "returned": En["AttributeReturn"], "uniqueness": En["AttributeUniqueness"], "multi_valued": {"no": False, "yes": True}}
        vary = list(chars) if ctx.tier == "thorough" else [pick(I, "characteristic", chars)]
        for c in vary:
            kw[c] = chars[c][pick(I, c, chars[c])]
        if t == "complex":
            sub = I.call(ctx.get(I, A + "Attribute"), [], {"name": "x", "type_": ctx.get(I, T + "String")})
            a = I.call(ctx.get(I, A + "ComplexAttribute"), [], {"sub_attributes": I.new_list([sub]), **kw})
        else:
            if t == "SCIMReference":
                kw["reference_types"] = I.new_list(["User"])
            if t == "String":
                kw["canonical_values"] = I.new_list(["a", "b"])
            a = I.call(ctx.get(I, A + "Attribute"), [], {"type_": ctx.get(I, T + t), **kw})
        s = I.call(ctx.get(I, "src.data.schemas:ResourceSchema"), ["urn:x:Core"], {"attrs": I.new_list([a]), "name": "Thing"})
        rep = I.call(ctx.get(I, "src.data.schemas:get_schema_rep"), [s], {})
        r, iss = pair(I, meth(I, built["schema:Schema"], "dump", rep))
        same_issues(I, iss, [], f"published attribute of type {t}, processed as a schema resource")
    ctx.case(I, "every published attribute is valid in a schema resource", each_type, max_paths=2000)

    def reserved(I):
        name = pick(I, "schema", [n for n in SCHEMAS if SCHEMAS[n][2]])
        s = built[name]
        d = pick(I, "direction", ["parse", "dump"])
        attrs = {const(I, I.getattr(I.getattr(a, "rep"), "attr")): a for a in I.items_of(I.call(lst, [I.getattr(s, "attrs")], {}))
                 if not const(I, I.getattr(I.getattr(a, "rep"), "sub_attr"))}
        if name in ("schema:Schema", "resource_type:ResourceType"):
            raise Skip()
        v = pick(I, "id", ["bulkId", "xbulkIdy", "5", "bulk"])
        r, iss = pair(I, meth(I, attrs["id"], d, v))
        es, _ = entries(I, iss)
        expect(bool(es) == ("bulkId" in v), f"{name.split(':')[1]}: the identifier {v!r} is {'rejected' if es else 'accepted'}")
        if es:
            expect([e[1] for e in es] == [7], f"the identifier {v!r} is rejected with {es}")
    ctx.case(I, "reserved word in identifiers", reserved)
