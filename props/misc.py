"""C24: kinds of findings; C25: configuration; C28: schema resources."""
from .common import *
from .schemas import plain, plain_same

# kind of finding -> (code, details in the order they are given); "key=parameter" where they differ
KINDS = {
    "bad_value_syntax": (1, ""), "bad_type": (2, "expected provided"), "base_64_encoding_required": (3, "scim_type"), "reserved_keyword": (7, "keyword"), "bad_url": (8, "value"),
    "multiple_primary_values": (9, "primary_entries*"), "missing_required_header": (10, "header"), "must_be_equal_to": (11, "value"), "bad_error_status": (12, "provided"),
    "error_status_mismatch": (13, "response_status body_status"), "must_be_one_of": (14, "expected_values* provided"), "missing": (15, ""), "bad_status_code": (16, "expected provided"),
    "resource_type_mismatch": (17, "resource_type provided"), "restricted_or_not_requested": (19, ""), "too_many_results": (21, "must"), "total_results_mismatch": (22, "total_results n_resources"),
    "too_little_results": (23, "must"), "response_value_does_not_correspond_to_parameter": (24, "response_key response_value query_param_name query_param_value reason"),
    "included_resource_does_not_match_filter": (25, ""), "resources_not_sorted": (26, ""), "unknown_schema": (27, ""), "missing_main_schema": (28, ""), "missing_schema_extension": (29, "extension"),
    "can_not_be_used_together": (30, "other"), "complex_sub_attribute": (33, "attr sub_attr"), "resource_type_endpoint_required": (34, ""), "resource_object_endpoint_required": (35, ""),
    "unknown_resource": (36, ""), "too_many_operations": (37, "max"), "too_many_errors": (38, "max"), "not_supported": (39, ""), "bracket_not_opened_or_closed": (100, ""),
    "complex_attribute_bracket_not_opened_or_closed": (102, ""), "missing_operand_for_operator": (104, "operator expression"), "unknown_operator": (105, "operator_type operator expression"),
    "unknown_expression": (106, "expression"), "empty_filter_expression": (107, ""), "inner_complex_attribute_or_square_bracket": (109, ""), "empty_complex_attribute_expression": (110, "attribute"),
    "bad_attribute_name": (111, "attribute"), "bad_comparison_value": (112, "value"), "non_compatible_comparison_value": (113, "value operator"), "bad_operation_path": (300, ""),
    "unknown_operation_target": (303, ""), "attribute_can_not_be_modified": (304, ""), "complex_filter_without_sub_attr_for_add_op": (305, ""), "attribute_can_not_be_deleted": (306, ""),
}
SAID = {"complex_sub_attribute": ["sub_attr", "attr"]}      # the order in which the text says the details, where it is not the order they are given in
PROTOCOL = ["invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget", "invalidValue", "invalidVers", "sensitive"]


def c24(ctx):
    I = ctx.interp(native_issues=False, native_cont=False)
    VE = ctx.get(I, "src.error:ValidationError")
    VI = ctx.get(I, "src.error:ValidationIssues")
    ctx.rule("each kind of finding has its own code; its text and its rendering hold every detail it was given")
    show = ref(I, "def show(x):\n    return str(x)\ndef reprs(x):\n    return repr(x)\n", "show")

    def kinds(I):
        n = pick(I, "kind", KINDS)
        code, params = KINDS[n]
        args, want = [], {}
        for i, p in enumerate(params.split()):
            many = p.endswith("*")
            # a symbolic detail could be any text; its occurrences in the message are found by name
            v = [f"detail{i}b", f"detail{i}a"] if many else f"detail{i}"
            args.append(jd(I, v))
            want[p.rstrip("*")] = v
        try:
            f = I.getattr(VE, n)
        except AbsRaise:
            raise Skip()
        e = I.call(f, args, {})
        c = I.norm(I.getattr(e, "code"))
        expect(c == code, f"{n} has code {c}, should have {code}")
        t = I.norm(I.call(show, [e], {}))
        if isinstance(t, str):
            for k, v in want.items():
                for x in v if isinstance(v, list) else [v]:
                    expect(x in t, f"the text of {n} does not hold the {k}: {t!r}")
            if "{" not in t:
                order = SAID.get(n, list(want))
                at = [t.find(x) for k in order for x in (want[k] if isinstance(want[k], list) else [want[k]])]
                expect(at == sorted(at), f"the text of {n} says its details in another order than {order}: {t!r}")
            expect("{" not in t and "}" not in t, f"the text of {n} has an open place: {t!r}")
            expect(t.strip(), f"{n} has no text")
        x = I.norm(I.getattr(e, "context"))
        expect(isinstance(x, ADict), f"context of {n} is {x!r}")
        got = {I.norm(k): I.norm(v) for k, v in x.items.values()}
        expect(set(got) == set(want), f"{n} gives the details {sorted(got)}, should give {sorted(want)}")
        for k, v in want.items():
            g = plain(I, got[k])
            ok = g == v or isinstance(v, list) and (isinstance(g, str) and g == ", ".join(v) or isinstance(g, (list, tuple)) and list(g) == v)
            expect(ok, f"the detail {k} of {n} is {g!r}, was given {v!r}")
        # rendering
        iss = I.call(VI, [], {})
        loc = pick(I, "location", [(), ("a",), ("a", 1, "b")])
        meth(I, iss, "add", issue=e, proceed=False, location=tuple(loc))
        m, cx = pick(I, "text", [False, True]), pick(I, "details", [False, True])
        d = meth(I, iss, "to_dict", msg=m, ctx=cx)
        for x in loc:
            d = I.getitem(d, str(x))
        item = I.items_of(I.getitem(d, "_errors"))
        expect(len(item) == 1, f"{len(item)} findings rendered")
        it = {I.norm(k): I.norm(v) for k, v in I.norm(item[0]).items.values()}
        expect(set(it) == {"code"} | ({"error"} if m else set()) | ({"context"} if cx else set()), f"a rendered finding has {sorted(it)}")
        expect(it["code"] == code, f"{n} is rendered with code {it['code']}")
        if m:
            expect(same(I, it["error"], t) or deep_same(I, it["error"], t), f"{n} is rendered with the text {it['error']!r}")
        if cx:
            expect(plain(I, it["context"]) == plain(I, I.getattr(e, "context")), f"{n} is rendered with other details")
    ctx.case(I, "kinds of findings", kinds, max_paths=4000)

    # no two kinds share a code (also kinds added later)
    def distinct(I):
        import ast
        seen = {}
        for n, v in VE.ns.items():
            node = getattr(getattr(v, "fn", v), "node", None)
            if node is None or not isinstance(node, ast.FunctionDef):
                continue
            for x in ast.walk(node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "cls":
                    for k in x.keywords:
                        if k.arg == "code" and isinstance(k.value, ast.Constant):
                            expect(k.value.value not in seen, f"{n} and {seen.get(k.value.value)} share code {k.value.value}", f"src/error.py:{x.lineno}")
                            seen[k.value.value] = n
        ctx.extra["kinds_found"] = len(seen)
    ctx.case(I, "codes are distinct", distinct)

    J = ctx.interp(native_cont=False)

    def protocol(I):
        import re
        n = pick(I, "error", PROTOCOL)
        name = re.sub(r"([A-Z])", r"_\1", n).upper()
        e = plain(I, ctx.get(I, "src.assets.scim_error:" + name))
        expect(set(e) == {"status", "scimtype", "detail"}, f"{name} has {sorted(e)}")
        expect(e["scimtype"] == n, f"{name} has scimType {e['scimtype']!r}")
        expect(e["status"].isdigit() and 400 <= int(e["status"]) < 500, f"{name} has status {e['status']!r}")
        expect(e["detail"], f"{name} has no detail")
        body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], "status": e["status"], "scimType": e["scimtype"], "detail": e["detail"]}
        E = I.call(ctx.get(I, "src.request_validators:Error"), [], {})
        r, iss = pair(I, meth(I, E, "dump_response", status_code=int(e["status"]), body=jd(I, body), headers=None))
        same_issues(I, iss, [], f"error response with {name}")
    ctx.case(J, "protocol errors", protocol)

    # the details are those of the very finding: what was expected and what was there, where they are reported
    K = ctx.interp(native_issues=False, native_cont=False)
    from .whole import USER, SMALL, GROUP, PATCH, BULK, BULK_OUT, SEARCH, ERROR, ENT, THING_URN, listing, thing, without

    def endpoints(I):
        mk = lambda n, *a, **kw: I.call(ctx.get(I, n), list(a), kw)
        config = mk("src.assets.config:create_service_provider_config", bulk=I.new_dict([("supported", True), ("max_operations", 3), ("max_payload_size", 10)]))
        s = [thing(ctx, I), mk("src.assets.schemas.group:Group")]
        RV = "src.request_validators:"
        one = lambda n: mk(RV + n, config, resource_schema=s[0])
        return {**{n: one(n) for n in ("ResourcesPOST", "ResourceObjectGET", "ResourceObjectPUT", "ResourceObjectPATCH", "ResourcesGET")}, "Error": mk(RV + "Error"),
                "BulkOperations": mk(RV + "BulkOperations", config, resource_schemas=I.new_list(s))}
    made = ctx.setup(K, endpoints)
    create = without(USER, "id", "meta", "born")
    P = lambda **op: {**PATCH, "Operations": [op]}
    MAIL = USER["emails"]
    # endpoint, method, body, other arguments -> details by location and code
    DETAILS = {
        "status": ("ResourcesPOST", "dump_response", without(SMALL), {"status_code": 500, "headers": {"Location": "https://example.com/Users/1"}}, {("status", 16): {"expected": 201, "provided": 500}}),
        "no location": ("ResourcesPOST", "dump_response", without(SMALL), {"status_code": 201, "headers": None}, {("headers.Location", 10): {"header": "Location"}}),
        "type of resource": ("ResourceObjectGET", "dump_response", {**SMALL, "meta": {**SMALL["meta"], "resourceType": "Group"}}, {"status_code": 200},
                             {("body.meta.resourceType", 17): {"resource_type": "User", "provided": "Group"}}),
        "error statuses": ("Error", "dump_response", ERROR, {"status_code": 400}, {("status", 13): {"response_status": 400, "body_status": 404}, ("body.status", 13): {"response_status": 400, "body_status": 404}}),
        "bad error status": ("Error", "dump_response", {**ERROR, "status": "700"}, {"status_code": 700}, {("status", 12): {"provided": 700}}),
        "type of value": ("ResourcesPOST", "parse_request", {**create, "userName": 5, "name": {"familyName": True}, "emails": "x"}, {},
                          {("body.userName", 2): {"expected": "string", "provided": "integer"}, ("body.name.familyName", 2): {"expected": "string", "provided": "boolean"},
                           ("body.emails", 2): {"expected": "list", "provided": "string"}}),
        "canonical": ("ResourcesPOST", "parse_request", {**create, "emails": [{"value": "a", "type": "x"}]}, {}, {("body.emails.0.type", 14): {"expected_values": ["work", "home"], "provided": "x"}}),
        "primary": ("ResourcesPOST", "parse_request", {**create, "emails": [MAIL[0], MAIL[1], {**MAIL[1], "primary": True}]}, {}, {("body.emails", 9): {"primary_entries": "0, 2"}}),
        "address": ("ResourcesPOST", "parse_request", {**create, "site": "x"}, {}, {("body.site", 8): {"value": "x"}}),
        "base 64": ("ResourcesPOST", "parse_request", {**create, "cert": "x"}, {}, {("body.cert", 3): {"scim_type": "binary"}}),
        "extension": ("ResourcesPOST", "parse_request", {**create, "schemas": [THING_URN]}, {}, {("body.schemas", 29): {"extension": ENT}}),
        "both": ("ResourcesPOST", "parse_request", create, {"query_string": {"attributes": "userName", "excludeAttributes": "tags"}},
                 {("query_string.attributes", 30): {"other": "excludeAttributes"}, ("query_string.excludeAttributes", 30): {"other": "attributes"}}),
        "requested": ("ResourcesPOST", "parse_request", create, {"query_string": {"attributes": "a b"}}, {("query_string.attributes.a b", 111): {"attribute": "a b"}}),
        "totals": ("ResourcesGET", "dump_response", {**listing(SMALL, SMALL), "totalResults": 1}, {"status_code": 200}, {("body.Resources", 22): {"total_results": 1, "n_resources": 2}}),
        "operation": ("ResourceObjectPATCH", "parse_request", P(op="put", path="tags", value=["a"]), {}, {("body.Operations.0.op", 14): {"expected_values": ["add", "remove", "replace"], "provided": "put"}}),
        "path": ("ResourceObjectPATCH", "parse_request", P(op="add", path="a b", value=["a"]), {}, {("body.Operations.0.path", 111): {"attribute": "a b"}}),
        "many operations": ("BulkOperations", "parse_request", {**BULK, "Operations": BULK["Operations"]}, {}, {("body.Operations", 37): {"max": 3}}),
        "many errors": ("BulkOperations", "dump_response", {**BULK_OUT, "Operations": [BULK_OUT["Operations"][3]] * 2}, {"status_code": 200, "fail_on_errors": 1}, {("body.Operations", 38): {"max": 1}}),
    }

    def found(I, d, at=()):
        out = {}
        for k, v in d.items():
            if k == "_errors":
                for e in v:
                    out[(".".join(at), e["code"])] = e.get("context")
            else:
                out.update(found(I, v, at + (k,)))
        return out

    def raw(I, v):
        v = I.norm(v)
        if isinstance(v, ADict):
            return {I.norm(k): raw(I, x) for k, x in v.items.values()}
        return [raw(I, x) for x in v.items] if isinstance(v, AList) else [raw(I, x) for x in v] if isinstance(v, tuple) else v

    def details(I):
        n = pick(I, "message", DETAILS)
        e, m, body, kw, want = DETAILS[n]
        try:
            r, iss = pair(I, meth(I, made[e], m, body=jd(I, body), **{k: jd(I, v) for k, v in kw.items()}))
        except AbsRaise:
            raise Skip("C01")
        got = found(I, raw(I, meth(I, iss, "to_dict", msg=False, ctx=True)))
        for k, c in want.items():
            if k not in got:
                raise Skip("reported otherwise: not the subject of this case")
            flat = lambda x: ", ".join(map(str, x)) if isinstance(x, list) else str(x)
            g = got[k] or {}
            expect(set(g) == set(c) and all(flat(g[x]) == flat(c[x]) for x in c), f"{n}: the finding {k[1]} at {k[0]} has the details {g}, should have {c}")
    ctx.case(K, "details of findings", details)

    u = lambda kind, o, t: {"operator_type": kind, "operator": o, "expression": t}
    FILTERS = {      # text -> details by code
        "a eq": {104: {"operator": "eq", "expression": "a eq"}}, 'a xx "v w"': {105: u("binary", "xx", 'a xx "v w"')}, 'b eq "q" and a xx "v w"': {105: u("binary", "xx", 'a xx "v w"')},
        'a pr and (b xx 5 or c eq "k")': {105: u("binary", "xx", "b xx 5")}, 'a[b xx "v w"]': {105: u("binary", "xx", 'b xx "v w"')}, 'a b eq "x y"': {106: {"expression": 'a b eq "x y"'}},
        "a eq x": {112: {"value": "x"}}, "a co 5": {113: {"value": 5, "operator": "co"}}, "a[]": {110: {"attribute": "a"}}, 'a pr or (b eq "v w" and c)': {106: {"expression": "c"}},
        '(a pr and b eq "x y") c': {105: u("unary", "c", '(a pr and b eq "x y") c'), 111: {"attribute": '(a pr and b eq "x y")'}}, "a yy": {105: u("unary", "yy", "a yy")},
        'm[x eq "1"] xx 5': {105: u("binary", "xx", 'm[x eq "1"] xx 5'), 111: {"attribute": 'm[x eq "1"]'}}, '(a pr or m[x eq "1"]) zz "5"': {105: u("binary", "zz", '(a pr or m[x eq "1"]) zz "5"')},
    }

    def filters(I):
        t = pick(I, "filter", FILTERS)
        r, iss = pair(I, meth(I, ctx.get(I, "src.filter:Filter"), "parse", t))
        got = found(I, raw(I, meth(I, iss, "to_dict", msg=False, ctx=True)))
        for c, w in FILTERS[t].items():
            if ("", c) not in got:
                raise Skip("see C12")
            expect(got[("", c)] == w, f"filter {t!r}: the finding {c} has the details {got[('', c)]}, should have {w}")
    ctx.case(K, "details of findings about filters", filters)


def c25(ctx):
    I = ctx.interp(native_cont=False)
    create = ctx.get(I, "src.assets.config:create_service_provider_config")
    ctx.rule("the configuration has exactly the options given, others are unsupported; bulk and filtering can not be supported without their limits")
    PLAIN = {"patch": "patch", "change_password": "change_password", "sort": "sort", "etag": "etag"}

    def options(I):
        o = pick(I, "option", list(PLAIN))
        how = pick(I, "given", ["absent", "none", "empty", "true", "false"])
        kw = {}
        if how != "absent":
            kw[o] = {"none": None, "empty": I.new_dict([]), "true": I.new_dict([("supported", True)]), "false": I.new_dict([("supported", False)])}[how]
        kw["documentation_uri"] = opaque(I, "uri", kinds=["str"])
        c = I.call(create, [], kw)
        for p in PLAIN:
            v = I.norm(I.getattr(I.getattr(c, p), "supported"))
            expect(v is (p == o and how == "true"), f"{p}.supported is {v} when {o} is given as {how}")
        expect(same(I, I.getattr(c, "documentation_uri"), kw["documentation_uri"]), "the documentation URI is changed")
        for p in ("bulk", "filter"):
            v = I.norm(I.getattr(I.getattr(c, p), "supported"))
            expect(v is False, f"{p}.supported is {v}, though nothing is said about it")
    ctx.case(I, "plain options", options)

    def limits(I):
        sup = pick(I, "supported", [None, True, False])
        lim = {n: pick(I, n, ["absent", "none", "zero", "given"]) for n in ("max_operations", "max_payload_size")}
        val = {n: {"none": None, "zero": 0, "given": I.sym("limit", n, kinds=["int"])}.get(h) for n, h in lim.items()}
        d = [(n, val[n]) for n, h in lim.items() if h != "absent"] + ([("supported", sup)] if sup is not None else [])
        try:
            c = I.call(create, [], {"bulk": I.new_dict(d)})
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError", f"raises {I.exc_name(e)}")
            expect(sup is True, "bulk that is not supported is refused")
            expect(not all(lim[n] == "given" and I.truth(val[n]) for n in lim), "bulk with both limits is refused")
            return
        b = I.getattr(c, "bulk")
        expect(I.norm(I.getattr(b, "supported")) is bool(sup), "bulk.supported is changed")
        for n in lim:
            expect(same(I, I.getattr(b, n), val[n]), f"bulk.{n} is {I.norm(I.getattr(b, n))!r}")
        if sup:
            expect(all(lim[n] == "given" and I.truth(val[n]) for n in lim), f"bulk is supported with {lim}")
    ctx.case(I, "bulk limits", limits)

    def results(I):
        sup = pick(I, "supported", [None, True, False])
        h = pick(I, "max_results", ["absent", "none", "zero", "given"])
        v = {"none": None, "zero": 0, "given": I.sym("limit", "max_results", kinds=["int"])}.get(h)
        d = ([("max_results", v)] if h != "absent" else []) + ([("supported", sup)] if sup is not None else [])
        try:
            c = I.call(create, [], {"filter_": I.new_dict(d)})
        except AbsRaise as e:
            expect(I.exc_name(e) == "ValueError", f"raises {I.exc_name(e)}")
            expect(sup is True, "filtering that is not supported is refused")
            expect(h != "given" or not I.truth(v), "filtering with a limit is refused")
            return
        f = I.getattr(c, "filter")
        expect(I.norm(I.getattr(f, "supported")) is bool(sup) and same(I, I.getattr(f, "max_results"), v), "filter option is changed")
        if sup:
            expect(h == "given" and I.truth(v), f"filtering is supported with max_results {h}")
    ctx.case(I, "filter limit", results)

    def schemes(I):
        n = pick(I, "schemes", [None, 0, 1, 2, 5])
        F = ("name", "description", "spec_uri", "documentation_uri", "type")
        vals = [{f: opaque(I, f"{f}{i}", kinds=["str"]) for f in F} for i in range(n or 0)]
        c = I.call(create, [], {"authentication_schemes": None if n is None else I.new_list([I.new_dict(list(v.items())) for v in vals])})
        got = I.items_of(I.getattr(c, "authentication_schemes"))
        expect(len(got) == (n or 0), f"{len(got)} authentication schemes of {n}")
        for g, v in zip(got, vals):
            for f in F:
                expect(same(I, I.getattr(g, f), v[f]), f"{f} of an authentication scheme is {I.norm(I.getattr(g, f))!r}")
    ctx.case(I, "authentication schemes", schemes)


def c28(ctx):
    I = ctx.interp(native_cont=False)
    SC = ctx.get(I, "src.data.container:SCIMDataContainer")
    attrs = ctx.get(I, "src.assets.schemas.schema:attributes")
    ctx.rule("a string attribute of a schema resource states caseExact, others do not keep it; sub-attributes are kept for complex attributes only and obey the same rules at every level")
    TYPES = ["string", "integer", "decimal", "boolean", "reference", "dateTime", "binary", "complex"]
    BASE = {"multiValued": False, "required": True, "mutability": "readWrite", "returned": "default", "uniqueness": "none"}

    def item(I, name, t, exact, subs=None, bad=None):
        d = dict(BASE, name=name)
        if t is not None:
            d["type"] = t
        if exact != "absent":
            d["caseExact"] = {"none": None, "yes": True, "no": False, "bad": 5}[exact]
        if subs is not None:
            d["subAttributes"] = subs
        if bad:
            d[bad] = 5 if bad != "multiValued" else "x"
        return d

    def judge(d, loc):
        """(findings, processed) of one definition; findings of the fields come first and stop the rest of the whole list"""
        first, later, out = [], [], {}
        for k, v in d.items():
            if k == "subAttributes":
                out[k] = v
                continue
            ok = v is None or isinstance(v, bool if k in ("multiValued", "required", "caseExact") else str)
            if not ok:
                first.append((loc + (k,), 2, True))
            out[k] = v
        return first, out

    def process(items, loc):
        if items is None:
            return [], items
        if not isinstance(items, list):
            return [(loc, 2, True)], "INVALID"
        found, outs = [], []
        for i, d in enumerate(items):
            if not isinstance(d, dict):
                found.append((loc + (i,), 2, True))
                outs.append("INVALID")
                continue
            f, o = judge(d, loc + (i,))
            found += f
            outs.append(o)
        if found:
            return found, outs
        for i, o in enumerate(outs):
            if o.get("subAttributes") is not None:
                if o.get("type") != "complex":
                    del o["subAttributes"]
                else:
                    f, o["subAttributes"] = process(o["subAttributes"], loc + (i, "subAttributes"))
                    found += f
            if o.get("type") == "string":
                if o.get("caseExact") is None:
                    found.append((loc + (i, "caseExact"), 15, True))
            else:
                o.pop("caseExact", None)
        return found, outs

    def conv(I, v):
        if isinstance(v, dict):
            return I.call(SC, [jd(I, v)], {})
        if isinstance(v, list):
            return I.new_list([conv(I, x) for x in v])
        return v

    def run(I, items):
        found, want = process(items, ())
        r, iss = pair(I, meth(I, attrs, "dump", conv(I, items)))
        same_issues(I, iss, found, f"attributes {items}")
        if not found:
            drop = lambda x: {k.lower(): drop(v) for k, v in x.items() if v is not None} if isinstance(x, dict) else [drop(y) for y in x] if isinstance(x, list) else x
            got = drop(plain(I, r)) if plain(I, r) is not None else None
            expect(got == drop(want) if want is not None else got is None, f"attributes {items} become {got}")

    def flat(I):
        t = pick(I, "type", TYPES + [None])
        e = pick(I, "caseExact", ["absent", "none", "yes", "no", "bad"])
        s = pick(I, "subAttributes", ["absent", "none", "empty", "good", "one", "lacking", "bad", "not a list", "not an object"])
        subs = {"none": None, "empty": [], "one": [item(I, "s", "integer", "yes")], "good": [item(I, "s", "string", "yes"), item(I, "t", "integer", "yes")], "lacking": [item(I, "s", "integer", "absent"), item(I, "t", "string", "absent")],
                "bad": [item(I, "s", "string", "bad")], "not a list": 5, "not an object": [item(I, "s", "string", "yes"), 5]}
        d = item(I, "a", t, e)
        if s != "absent":
            d["subAttributes"] = subs[s]
        run(I, [d])
    ctx.case(I, "one attribute", flat, max_paths=2000)

    def nested(I):
        t0 = pick(I, "outer", ["complex", "string"])
        t1 = pick(I, "inner", ["complex", "integer"])
        t2, e2 = pick(I, "innermost", ["string", "integer", "complex"]), pick(I, "caseExact", ["absent", "yes"])
        inner = item(I, "i", t1, "yes", [item(I, "j", t2, e2), item(I, "k", "string", "no")])
        other = item(I, "o", "string", pick(I, "other", ["absent", "yes"]))
        items = [other, item(I, "a", t0, "yes", [inner, other])]
        run(I, items if pick(I, "order", [1, 2]) == 1 else items[::-1])
    ctx.case(I, "nested attributes", nested)

    def junk(I):
        v = pick(I, "attributes", [None, 5, "x", [], [5], [None], ["x", {"name": "a", "type": "string", "caseExact": True}]])
        if v == [None]:
            raise Skip()
        run(I, v)
    ctx.case(I, "not a list of objects", junk)
