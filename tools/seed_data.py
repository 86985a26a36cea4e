SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed("s02-binding-issuer", "C04",
     [("src/data/schemas.py", "            reference_types=attr.reference_types,\n            issuer=attr.issuer,\n", "            reference_types=attr.reference_types,\n            issuer=attr.issuer if not attr_rep.sub_attr else AttributeIssuer.NOT_SPECIFIED,\n")],
     "a required, server-issued sub-attribute of an attribute bound to a schema",
     "sub-attributes lose their issuer when bound to a schema, so a POST is refused for lacking what the server issues",
     '''
from src.data.attributes import Attribute, AttributeIssuer, ComplexAttribute
from src.data.container import AttrRep
from src.data.schemas import ResourceSchema
from src.data.type import String

s = ResourceSchema("urn:x:thing", [ComplexAttribute(
    [Attribute("code", String, required=True, issuer=AttributeIssuer.SERVER)], "label")], name="Thing")
assert s.attrs.get(AttrRep(attr="label", sub_attr="code")).issuer == AttributeIssuer.SERVER
''')

seed("s03-date-dump-invalid", "C05",
     [("src/data/type.py", '''        value, issues = super().dump(value)
        if not issues.can_proceed():
            return Invalid, issues
        cls._validate_encoding(value, issues)
        if not issues.can_proceed():
            return Invalid, issues
        return value, issues
''', '''        value, issues = super().dump(value)
        if not issues.can_proceed():
            return Invalid, issues
        if len(value) % 4:
            cls._validate_encoding(value, issues)
        if not issues.can_proceed():
            return Invalid, issues
        return value, issues
''')],
     "dumping a binary value whose length is a multiple of 4 but which is not base64",
     "text that is not base64 is produced as binary content",
     '''
from src.data.container import Invalid
from src.data.type import Binary

for v in ("bad", "!!!!", "a===", "@@@@@@@@"):
    value, issues = Binary.dump(v)
    assert value is Invalid and issues.has_issues(), v
''')

seed("s04-canonical-multi-index", "C06",
     [("src/data/attributes.py", '''                            proceed=False,
                            location=(i,),
                        )
                        item = Invalid''', '''                            proceed=False,
                            location=(value.index(item) if item in value else i,),
                        )
                        item = Invalid''')],
     "a multi-valued attribute with enforced canonical values holding the same bad value twice",
     "findings about a repeated element point to the first occurrence",
     '''
from src.data.attributes import Attribute
from src.data.type import String

a = Attribute("a", String, multi_valued=True, canonical_values=["x"], validate_canonical_values=True)
_, issues = a.parse(["x", "bad", "bad"])
assert issues.to_dict() == {"1": {"_errors": [{"code": 14}]}, "2": {"_errors": [{"code": 14}]}}, issues.to_dict()
''')

seed("s05-primary-not-with-own", "C07",
     [("src/data/attributes.py", '''            if validate_single_primary_value not in complex_dumpers:
                complex_dumpers.append(validate_single_primary_value)''',
       '''            if not complex_dumpers:
                complex_dumpers.append(validate_single_primary_value)''')],
     "a multi-valued complex attribute with its own processor for producing data, and two primary items",
     "two primary items are produced without a finding",
     '''
from src.data.attributes import Attribute, ComplexAttribute
from src.data.container import SCIMDataContainer
from src.data.type import Boolean
from src.error import ValidationIssues

a = ComplexAttribute([Attribute("primary", Boolean)], "a", multi_valued=True,
                     complex_dumpers=[lambda v: (v, ValidationIssues())])
_, issues = a.dump([SCIMDataContainer({"primary": True}), SCIMDataContainer({"primary": True})])
assert issues.to_dict() == {"_errors": [{"code": 9}]}, issues.to_dict()
''')


COMMON = """
from src.assets.config import create_service_provider_config
from src.data.attributes import *
from src.data.attributes import validate_single_primary_value
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
from src.data.schemas import ResourceSchema, SchemaExtension
from src.data.type import *
from src.error import ValidationError, ValidationIssues
import src.request_validators as rv
config = create_service_provider_config(bulk={"supported": True, "max_operations": 10, "max_payload_size": 10})
RO = AttributeMutability.READ_ONLY
"""


seed("s06-pop-unblocks", "C03",
     [("src/error.py", "        if location in self._stop_proceeding and len(self._stop_proceeding[location]) == 0:\n            self._stop_proceeding.pop(location)", "        if location in self._stop_proceeding:\n            self._stop_proceeding.pop(location)")],
     "two blocking findings of different kinds at one location, one of which is taken back",
     "the remaining one does not block any more",
     """
from src.error import ValidationError, ValidationIssues
i = ValidationIssues()
i.add(ValidationError.bad_value_syntax(), proceed=False, location=("a",))
i.add(ValidationError.missing(), proceed=False, location=("a",))
i.pop(("a",), 15)
assert not i.can_proceed(("a",)), "processing goes on past a blocking finding"
""")

seed("s07-falsy-skips-type", "C02",
     [("src/data/attributes.py", "        issues = ValidationIssues()\n        if value is None:\n            return value, issues\n\n        if self._multi_valued:",
       "        issues = ValidationIssues()\n        if value is None or value == 0:\n            return value, issues\n\n        if self._multi_valued:")],
     "the number 0 or false as the value of a text attribute (any depth)", "zero and false are accepted for every type",
     COMMON + """
from src.assets.schemas.user import User
r, i = rv.ResourcesPOST(config, resource_schema=User()).parse_request(body={"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "userName": "u", "displayName": 0})
assert i.has_issues(("body", "displayName")), "a number is accepted as displayName"
""")

seed("s08-same-name-extension", "C08",
     [("src/data/attributes.py", "            if not attr.rep.sub_attr:\n                self._top_level.append(attr)",
       "            if not attr.rep.sub_attr and all(\n                attr.rep.attr.lower() != other.rep.attr.lower() for other in self._top_level\n            ):\n                self._top_level.append(attr)")],
     "an extension attribute with the name of a core attribute", "such attributes of extensions are dropped without a word",
     COMMON + """
s = ResourceSchema("urn:x:thing", [Attribute("title", String)], name="Thing")
s.with_extension(SchemaExtension("urn:x:ext", [Attribute("title", String)], name="E"))
d, i = s.parse({"schemas": ["urn:x:thing", "urn:x:ext"], "title": "a", "urn:x:ext": {"title": "b"}})
assert d.to_dict().get("urn:x:ext") == {"title": "b"}, d.to_dict()
""")

seed("s09-presence-stops-early", "C09",
     [("src/attributes_presence.py", "                        if item_value is Invalid:\n                            continue", "                        if item_value is Invalid:\n                            break")],
     "a multi-valued attribute in which an invalid item precedes one that lacks a required sub-attribute", "items after an invalid one are not checked",
     COMMON + """
from src.attributes_presence import AttributePresenceChecker
s = ResourceSchema("urn:x:thing", [ComplexAttribute([Attribute("value", String, required=True)], "parts", multi_valued=True)], name="Thing")
d, i = s.parse({"schemas": ["urn:x:thing"], "id": "1", "parts": [{"value": 1}, {}]})
f = AttributePresenceChecker()(d, s.attrs, "REQUEST")
assert f.has_issues(("parts", 1, "value")), f.to_dict()
""")

seed("s10-or-missing-first", "C10",
     [("src/data/operator.py", "            if match.status == MatchStatus.PASSED:\n                return MatchResult.passed()\n            if match.status == MatchStatus.MISSING_DATA:\n                missing_data = True\n        if missing_data:\n            return MatchResult.missing_data()\n        return MatchResult.failed()",
       "            if match.status == MatchStatus.PASSED and not missing_data:\n                return MatchResult.passed()\n            if match.status == MatchStatus.MISSING_DATA:\n                missing_data = True\n        if missing_data:\n            return MatchResult.missing_data()\n        return MatchResult.failed()")],
     "strict evaluation of a disjunction whose first condition lacks data and whose second holds", "the disjunction is undecided instead of true",
     COMMON + """
from src.data.operator import *
s = ResourceSchema("urn:x:thing", [Attribute("a", String), Attribute("b", String)], name="Thing")
f = Or(Equal(AttrRep(attr="a"), "x"), Equal(AttrRep(attr="b"), "x"))
r = f.match(SCIMDataContainer({"b": "x"}), s.attrs, True)
assert r.status == MatchStatus.PASSED, r.status
""")

seed("s11-case-of-values", "C11",
     [("src/data/operator.py", "            if not attr.case_exact:\n                op_value = self.value.lower()", "            if not attr.case_exact or attr.multi_valued:\n                op_value = self.value.lower()")],
     "a comparison with a case exact multi-valued attribute, letter case differing", "the values are compared ignoring case",
     COMMON + """
from src.data.operator import *
s = ResourceSchema("urn:x:thing", [Attribute("tags", String, multi_valued=True, case_exact=True)], name="Thing")
op = Equal(AttrRep(attr="tags"), "Red")
assert op.match(["x", "Red"], s.attrs, True).status == MatchStatus.PASSED
assert op.match(["x", "red"], s.attrs, True).status == MatchStatus.FAILED
""")

seed("s12-not-over-lines", "C12",
     [("src/filter.py", 'NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\\s*\\bnot\\b\\s*(.*)", flags=re.DOTALL)', 'NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\\s*\\bnot\\b\\s*(.*)")')],
     "a negated condition written over two lines", "it is cut at the line break and refused",
     COMMON + """
from src.filter import Filter
f, i = Filter.parse('not a\\neq 1')
assert not i.has_issues(), i.to_dict()
""")

seed("s13-case-exact-mixed", "C13",
     [("src/sorter.py", "if self._attr.case_exact or other._attr.case_exact:", "if self._attr.case_exact:")],
     "resources of two types whose sort attribute is case exact in one of them only", "the order depends on which of two resources is compared first",
     COMMON + """
from src.sorter import Sorter
a = ResourceSchema("urn:x:a", [Attribute("n", String, case_exact=True)], name="A")
b = ResourceSchema("urn:x:b", [Attribute("n", String)], name="B")
x = SCIMDataContainer({"n": "B"}); y = SCIMDataContainer({"n": "a"})
s = Sorter(AttrRep(attr="n"))
r1 = [i["n"] for i in s([x, y], [a, b])]
r2 = [i["n"] for i in s([y, x], [b, a])]
assert r1 == r2 == ["B", "a"], (r1, r2)
""")

seed("s14-remove-items-of-read-only", "C14",
     [("src/assets/schemas/patch_op.py", "            if (\n                attr.mutability == AttributeMutability.READ_ONLY\n                or sub_attr.mutability == AttributeMutability.READ_ONLY\n            ):",
       "            if sub_attr.mutability == AttributeMutability.READ_ONLY:")],
     "removing a writable sub-attribute of filtered items of a read-only attribute", "the removal is accepted",
     COMMON + """
s = ResourceSchema("urn:x:thing", [ComplexAttribute([Attribute("value", String), Attribute("type", String)], "parts", multi_valued=True, mutability=RO)], name="Thing")
r, i = rv.ResourceObjectPATCH(config, resource_schema=s).parse_request(body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"],
    "Operations": [{"op": "remove", "path": 'parts[type eq "x"].value'}]})
assert i.has_issues(("body", "Operations", 0)), "a read-only attribute can be changed"
""")

seed("s15-value-of-extension", "C15",
     [("src/assets/schemas/patch_op.py", "        attr = self._resource_schema.attrs.get(attr_rep)\n        if attr is None:\n            return Invalid, issues", "        attr = self._resource_schema.attrs.get(AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr))\n        if attr is None:\n            return Invalid, issues")],
     "a PATCH of an extension attribute that has the name of a core attribute", "the value is judged by the core attribute",
     COMMON + """
s = ResourceSchema("urn:x:thing", [Attribute("size", String)], name="Thing")
s.with_extension(SchemaExtension("urn:x:ext", [Attribute("size", Integer)], name="E"))
r, i = rv.ResourceObjectPATCH(config, resource_schema=s).parse_request(body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"],
    "Operations": [{"op": "replace", "path": "urn:x:ext:size", "value": 5}]})
assert not i.has_issues(), i.to_dict()
""")

seed("s16-put-read-only-sub", "C16",
     [("src/request_validators.py", "            for attr in self._schema.attrs:\n                if attr.mutability == AttributeMutability.READ_ONLY:\n                    del body[attr.rep]\n\n        return RequestData(body=body, headers=headers, query_string=query_string), issues\n\n    def dump_response(\n        self,\n        *,\n        status_code: int,\n        body: Any = None,\n        headers: Any = None,\n        presence_checker: Optional[AttributePresenceChecker] = None,\n    ) -> Tuple[ResponseData, ValidationIssues]:\n        return _dump_resource_output_body(\n            schema=self._schema,\n            location_header_required=False,",
       "            for attr in self._schema.attrs.top_level:\n                if attr.mutability == AttributeMutability.READ_ONLY:\n                    del body[attr.rep]\n\n        return RequestData(body=body, headers=headers, query_string=query_string), issues\n\n    def dump_response(\n        self,\n        *,\n        status_code: int,\n        body: Any = None,\n        headers: Any = None,\n        presence_checker: Optional[AttributePresenceChecker] = None,\n    ) -> Tuple[ResponseData, ValidationIssues]:\n        return _dump_resource_output_body(\n            schema=self._schema,\n            location_header_required=False,")],
     "a replace request that holds a read-only sub-attribute of a writable attribute", "the service gets a client's value for it",
     COMMON + """
s = ResourceSchema("urn:x:thing", [ComplexAttribute([Attribute("a", String), Attribute("b", String, mutability=RO)], "c")], name="Thing")
r, i = rv.ResourceObjectPUT(config, resource_schema=s).parse_request(body={"schemas": ["urn:x:thing"], "id": "1", "c": {"a": "x", "b": "y"}})
assert r.body.to_dict()["c"] == {"a": "x"}, r.body.to_dict()
""")

seed("s17-no-content-excluded", "C17",
     [("src/request_validators.py", "            if presence_checker is not None and presence_checker.attr_reps:", "            if presence_checker is not None and presence_checker.include:")],
     "a PATCH answered without content although attributes were requested to be left out", "the answer is accepted",
     COMMON + """
from src.attributes_presence import AttributePresenceChecker
s = ResourceSchema("urn:x:thing", [Attribute("a", String)], name="Thing")
r, i = rv.ResourceObjectPATCH(config, resource_schema=s).dump_response(status_code=204, presence_checker=AttributePresenceChecker([AttrRep(attr="a")], include=False))
assert i.has_issues(("status",)), "204 is accepted"
""")

seed("s18-count-zero", "C18",
     [("src/request_validators.py", "    if count is None and total_results > n_resources:", "    if not count and total_results > n_resources:")],
     "a list request with count 0", "the empty page it asks for is reported as too short",
     COMMON + """
s = ResourceSchema("urn:x:thing", [Attribute("a", String)], name="Thing")
r, i = rv.ResourcesGET(config, resource_schema=s).dump_response(status_code=200, count=0, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 5})
assert not i.has_issues(), i.to_dict()
""")

seed("s19-bulk-name-in-location", "C19",
     [("src/request_validators.py", 'if f"/{resource_plural_name}/" in location:', 'if f"{resource_plural_name}/" in location:')],
     "two resources one of whose names ends with the other's", "a bulk response is judged by the rules of another resource",
     COMMON + """
a = ResourceSchema("urn:x:user", [Attribute("a", String, required=True)], name="User", plural_name="Users")
b = ResourceSchema("urn:x:super", [Attribute("b", String)], name="SuperUser", plural_name="SuperUsers")
r, i = rv.BulkOperations(config, resource_schemas=[a, b]).dump_response(status_code=200, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkResponse"], "Operations": [
    {"method": "PUT", "location": "https://x.com/SuperUsers/1", "status": "200", "response": {"schemas": ["urn:x:super"], "id": "1", "meta": {"resourceType": "SuperUser", "location": "https://x.com/SuperUsers/1"}}}]})
assert not i.has_issues(), i.to_dict()
""")

seed("s20-container-takes-list", "C20",
     [("src/data/container.py", "                elif isinstance(value, List):\n                    self._data[key] = [\n                        SCIMDataContainer(item) if isinstance(item, Dict) else item\n                        for item in value\n                    ]",
       "                elif isinstance(value, List):\n                    for i, item in enumerate(value):\n                        if isinstance(item, Dict):\n                            value[i] = SCIMDataContainer(item)\n                    self._data[key] = value")],
     "any message with a list of objects", "the caller's message is changed: its objects become internal ones",
     COMMON + """
import copy
s = ResourceSchema("urn:x:thing", [ComplexAttribute([Attribute("value", String)], "parts", multi_valued=True)], name="Thing")
body = {"schemas": ["urn:x:thing"], "parts": [{"value": "a"}]}
rv.ResourcesPOST(config, resource_schema=s).parse_request(body=body)
assert all(type(x) is dict for x in body["parts"]), body
""")

seed("s21-null-sub-items", "C21",
     [("src/data/container.py", "                    if item is not Missing:\n", "                    if item not in [None, Missing]:\n")],
     "assigning a null to a sub-attribute of one item", "the item keeps its former value",
     COMMON + """
c = SCIMDataContainer({"a": [{"b": 1}, {"b": 2}]})
c["a.b"] = [None, 3]
assert c["a.b"] == [None, 3], c["a.b"]
""")

seed("s22-schema-case", "C22",
     [("src/data/container.py", "            return self.attr_with_schema.lower() == other.attr_with_schema.lower()", "            return self.schema == other.schema and self.attr.lower() == other.attr.lower()")],
     "attribute names whose URNs differ in letter case", "they are not taken for the same attribute",
     COMMON + """
assert AttrRep("urn:x:Thing", "a").top_level_equals(AttrRep("URN:x:thing", "A"))
""")

seed("s23-user-type-case", "C23",
     [("src/assets/schemas/user.py", """user_type = Attribute(
    name="userType",
    type_=type_.String,
    required=False,
    case_exact=False,""", """user_type = Attribute(
    name="userType",
    type_=type_.String,
    required=False,
    case_exact=True,""")],
     "a filter on the user type written in another letter case", "it does not match any more",
     COMMON + """
from src.assets.schemas.user import User
from src.filter import Filter
f, i = Filter.parse('userType eq "employee"')
assert f(SCIMDataContainer({"userType": "Employee"}), User(), True)
""")

seed("s24-swapped-statuses", "C24",
     [("src/error.py", "        return cls(code=13, response_status=response_status, body_status=body_status)", "        return cls(code=13, response_status=body_status, body_status=response_status)")],
     "an error response whose status differs from the body's", "the finding names them the wrong way round",
     COMMON + """
e = ValidationError.error_status_mismatch("404", "500")
assert e.context == {"response_status": "404", "body_status": "500"}, e.context
""")

seed("s25-filter-limit", "C25",
     [("src/assets/config.py", "        if self.supported and not all([self.max_payload_size, self.max_operations]):", "        if self.supported and not any([self.max_payload_size, self.max_operations]):")],
     "bulk supported with one of its two limits", "the configuration is accepted and fails when bulk is used",
     COMMON + """
try:
    create_service_provider_config(bulk={"supported": True, "max_payload_size": 5})
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

seed("s26-path-urn", "C26",
     [("src/data/path.py", "            sub_attr_rep = AttrRep(\n                schema=attr_rep.schema,\n                attr=attr_rep.attr,", "            sub_attr_rep = AttrRep(\n                schema=sub_attr_rep.schema,\n                attr=attr_rep.attr,")],
     "a path with a URN, a filter and a sub-attribute", "the sub-attribute loses its URN",
     COMMON + """
from src.data.path import PatchPath
p, i = PatchPath.parse('urn:x:thing:parts[type eq "a"].value')
assert p.complex_filter_attr_rep.schema == "urn:x:thing", p.complex_filter_attr_rep
""")

seed("s27-sort-order-of-search", "C27",
     [("src/assets/schemas/search_request.py", "        if issues.can_proceed((self.attrs.sortby.rep.attr,)):", "        if not issues.has_issues():")],
     "a search request with a wrong count and a sort attribute", "the sort attribute is ignored because of the other parameter",
     COMMON + """
from src.assets.schemas.search_request import SearchRequest
d, i = SearchRequest().parse({"schemas": ["urn:ietf:params:scim:api:messages:2.0:SearchRequest"], "count": "x", "sortBy": "a"})
assert d["sorter"], "no sorter"
""")

seed("s28-case-of-complex", "C28",
     [("src/assets/schemas/schema.py", "        else:\n            del item[_attributes__case_exact.rep]", "        elif attr_type != \"complex\":\n            del item[_attributes__case_exact.rep]")],
     "a complex attribute of a schema resource that states case exactness", "it is published",
     COMMON + """
from src.assets.schemas.schema import attributes
base = {"multiValued": False, "required": True, "mutability": "readWrite", "returned": "default", "uniqueness": "none"}
d, i = attributes.dump([SCIMDataContainer({"name": "a", "type": "complex", "caseExact": True, **base})])
assert d[0]["caseExact"] is Missing, d[0].to_dict()
""")

seed("s29-list-goes-on", "C01",
     [("src/request_validators.py", "    if issues.has_issues(resources_location):\n        return ResponseData(headers=headers, body=None), issues\n\n    resource_schemas", "    if not issues.can_proceed(resources_location):\n        return ResponseData(headers=headers, body=None), issues\n\n    resource_schemas")],
     "a list response of several types with a resource of no known type", "processing raises instead of reporting it",
     COMMON + """
a = ResourceSchema("urn:x:a", [Attribute("n", String)], name="A")
b = ResourceSchema("urn:x:b", [Attribute("n", String)], name="B")
r, i = rv.ServerRootResourceGET(config, resource_schemas=[a, b]).dump_response(status_code=200, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 1,
    "Resources": [{"schemas": ["urn:x:c"], "id": "1"}]})
assert i.has_issues()
""", crash=True)

seed("s30-date-to-seconds", "C29",
     [("src/data/type.py", "        return value.isoformat(), issues", "        return value.isoformat(timespec=\"seconds\"), issues")],
     "a date-time with a fraction of a second", "what is read back differs from what was produced",
     COMMON + """
from datetime import datetime, timezone
from src.data.type import DateTime
d = datetime(2024, 5, 6, 7, 8, 9, 123456, tzinfo=timezone.utc)
t, i = DateTime.dump(d)
assert not i.has_issues()
assert DateTime.parse(t)[0] == d, t
""")
