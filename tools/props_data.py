"""The properties and how each is decided."""

TECH = "abstract interpretation of the Python source (path-sensitive, interprocedural, finite partition of inputs)"
NOTE = ("One engine (pyai/) reads /repo's source on every run and interprets it abstractly; it never imports or executes "
        "the repository. See DESIGN.md.")


def p(id, title, statement, over, text, why, files, mechanism, note, technique=TECH, **more):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], **more},
            "technique": technique, "level_note": note}


PROPS = [
    p("C03", "Issue collections never lose, move or invent findings",
      "A collection of validation findings answers exactly according to what was added to it: merging (with or without a location "
      "prefix) keeps every finding, its code and whether it blocks, at the prefixed location; looking up, removing by location and "
      "code, rendering and the questions 'are there findings' and 'may processing go on here' agree with that content. Processing is "
      "blocked at a location exactly when a blocking finding was recorded at it or at one of its ancestors, and findings that do not "
      "block never block.",
      ["histories", "inputs"], "every sequence of additions, merges, look-ups and removals over locations",
      "The tests add a few findings and merge them once; the laws are about every sequence of operations and every nesting of locations.",
      ["src/error.py"], [("the accumulator's add/merge/get/pop/has_issues/can_proceed/to_dict", "src/error.py:ValidationIssues")],
      "All operation sequences up to a fixed length over a location lattice of depth 3 (a location is used only through prefix "
      "comparison, so this partition is representative); each compared with a list-of-findings reference model."),
    p("C04", "Declared attribute characteristics survive binding, publishing and equality",
      "Every characteristic declared for an attribute or sub-attribute (type, description, required, multi-valued, case exactness, "
      "canonical values and whether they are enforced, mutability, returned, uniqueness, issuer, reference types, custom processors) is "
      "readable on it and is unchanged after the attribute becomes part of a schema or of an extension of a schema. The published schema "
      "representation states exactly these characteristics, and two attributes that differ in any of name, type, reference types, required, case exactness, "
      "multi-valued, canonical values, their enforcement, mutability, returned or uniqueness are never equal.",
      ["inputs", "programs"], "every combination of characteristics, for attributes and sub-attributes, in base schemas, resource schemas and extensions",
      "The tests look at the shipped schemas, most of whose attributes use default characteristics, so a dropped one shows nowhere.",
      ["src/data/attributes.py", "src/data/schemas.py"],
      [("attribute constructors, equality and representation", "src/data/attributes.py"), ("binding to schemas and extensions", "src/data/schemas.py")],
      "Characteristics are symbolic, so one path stands for every declared value."),
    p("C05", "Data types accept exactly the values SCIM allows, in both directions",
      "For each SCIM data type a value is accepted or rejected according to its JSON type, both when reading and when producing data: "
      "booleans are never numbers, whole numbers are accepted as decimals and decimals as integers only when whole, numbers are finite, date-times, URLs and binary values must be well formed, "
      "binary content is base64 text. A rejected value is replaced by the invalid marker and exactly one blocking finding with the right code is reported; an accepted one is never accompanied by a finding.",
      ["inputs"], "every JSON type for every data type, in both directions",
      "The tests sample a few values per type; the acceptance matrix is over all value kinds and both directions.",
      ["src/data/type.py"], [("parse and dump of every data type", "src/data/type.py")],
      "Complete matrix of data type x value kind x direction; the outcome of library predicates (date, URL and base64 parsing) is split both ways."),
    p("C06", "Every value goes through type, canonical and custom checks in order",
      "Processing an attribute value applies the attribute's data type to the value, or to each element of a multi-valued attribute, in the direction asked for; "
      "then canonical values are enforced exactly when the attribute says so, ignoring case unless the attribute is case exact; then, exactly when nothing was reported, the "
      "attribute's custom processors of that direction run in declaration order, each on the result of the previous one. Findings about an element carry its index, "
      "a multi-valued attribute rejects anything but a list, and an absent value is left alone.",
      ["inputs", "configurations"], "every value and every combination of multi-valued, canonical values, case exactness, enforcement and custom processors",
      "The tests exercise a few attributes of the shipped schemas with one or two values.",
      ["src/data/attributes.py"], [("attribute parse/dump pipeline", "src/data/attributes.py:Attribute")],
      "Data type and processors are contracts (accept or reject, any result); lists are analysed as an arbitrary element among arbitrary others."),
    p("C07", "Complex attributes process each sub-attribute; at most one primary item",
      "Processing a complex attribute hands each sub-attribute present in each item to that sub-attribute's own definition in the direction asked for, keeps the result under the sub-attribute's name, "
      "reports its findings under the item index and sub-attribute name, and drops members that are not defined. Custom processors run in declaration order exactly when nothing was reported. "
      "A multi-valued complex attribute with more than one item whose primary flag is true is always reported, with or without other custom processors, and never otherwise.",
      ["inputs", "configurations"], "every value and every set of sub-attributes and processors",
      "Tests use the shipped schemas' attributes and a few items.",
      ["src/data/attributes.py"], [("complex attribute pipeline and primary check", "src/data/attributes.py:ComplexAttribute")],
      "Sub-attributes and processors are contracts; lists are analysed as an arbitrary element among others, and with two explicit items for primary uniqueness."),
    p("C08", "A schema processes exactly its own attributes, each in its namespace",
      "Processing a resource hands every value the data holds for a declared attribute, and nothing else, to that attribute's definition, in the direction asked for; "
      "core attributes are read from the top level, extension attributes only from the object under the extension's URN, names and URNs ignoring letter case, and findings are located under that name. "
      "Data that is absent or not an object is reported and replaced by the invalid marker, and "
      "the schemas field is reported exactly when it lacks the main schema, names an unknown one or misses an extension in use, and a produced resource's type must be its schema's.",
      ["inputs", "configurations"], "every resource document, every schema with and without extensions, both directions",
      "The tests process a handful of documents of two schemas; namespace mix-ups and lost findings need particular combinations of names, extensions and rejected values.",
      ["src/data/schemas.py", "src/data/container.py"],
      [("schema parse/dump and validation", "src/data/schemas.py:BaseSchema"), ("extensions", "src/data/schemas.py:ResourceSchema"),
       ("schemas field", "src/data/schemas.py:validate_schemas_field")],
      "A core schema with two attributes and an extension that reuses one of the names; every attribute's data type is a contract (accept, reject, remark). The schemas field is analysed for every list "
      "of up to 2 (thorough: 3) entries of each class."),
    p("C09", "Presence: exactly the missing, excluded and hidden attributes are reported",
      "In a response an attribute that is never returned is always reported when present; one that is not always returned is reported when excluded, or when other attributes are requested and neither it, its parent "
      "nor one of its sub-attributes is. A required attribute or sub-attribute that is absent or empty is reported, blocking, unless it is exempted or not asked for; requests never report a present attribute. "
      "Findings about sub-attributes and extension attributes are located at the item and under the extension, and nothing else is reported.",
      ["inputs", "configurations"], "every resource document, every set of requested, excluded and exempted names, both directions",
      "The rule combines seven independent conditions for each attribute; tests sample a few combinations of the shipped schemas.",
      ["src/attributes_presence.py"], [("presence checker", "src/attributes_presence.py:AttributePresenceChecker")],
      "Required and returned are symbolic; every combination of value state, requested/excluded/exempted name and direction is analysed for core, extension, single and multi-valued complex attributes."),
    p("C10", "Filters combine conditions by three-valued logic",
      "A conjunction fails if an operand fails or names an unknown attribute, is undetermined if one lacks data and passes otherwise; a disjunction passes if an operand passes, is undetermined if one lacks data and fails otherwise; "
      "a negation passes exactly on a failed operand or, in lenient mode, on one that lacks data. A filter on a complex attribute passes exactly if it does for one of the items (leniently also when no item has data). "
      "Every operand is judged on its own attribute's value, against the right attribute definitions, with the strictness asked for.",
      ["inputs", "programs"], "every combination of operands and their outcomes, nested to any depth",
      "Operators compose recursively: tests sample a few expressions and never the outcomes 'lacks data' and 'unknown attribute' in all positions.",
      ["src/data/operator.py"], [("logical operators", "src/data/operator.py:And, Or, Not"), ("complex filters", "src/data/operator.py:ComplexAttributeOperator")],
      "Operands are contracts with all four outcomes, so the statement holds at every nesting depth; operand counts up to 3."),
    p("C11", "Comparisons decide by attribute type, case exactness and data presence",
      "Each comparison passes exactly when the relation holds between the attribute's value and the operand; text is compared ignoring case unless the attribute is case exact, date-times as instants, multi-valued attributes match if one of their values does, and a "
      "complex attribute is compared through its value sub-attribute. An operand of the wrong type or an operator the type does not support fails, an absent value is 'lacks data' in strict and passes in lenient mode, an unknown attribute is reported as such, "
      "and presence holds exactly for non-empty values.",
      ["inputs"], "every value and operand of every attribute type and every operator",
      "Nine operators times nine types times multi-valued, case-exact and absent values: the tests cover a diagonal.",
      ["src/data/operator.py"], [("comparison operators", "src/data/operator.py")],
      "Values and operands are symbolic with their kind; the relation itself is compared as a term."),
    p("C13", "Sorting is a stable order by the sort attribute, resources without value last",
      "Sorting by a text (string), number or boolean attribute returns the same resources in stable order of their sort value (first value of a multi-valued attribute, value of the primary item of a complex one), text ignoring case unless the attribute is case exact, "
      "resources without a value last when ascending and first when descending, each resource judged by its own schema. The list handed in is left unchanged, and a malformed sort attribute is reported.",
      ["inputs"], "every list of resources, of one or several resource types, both orders",
      "Zero, false, empty, absent, tied and differently cased values at every position: tests sort a few lists of names.",
      ["src/sorter.py"], [("sorter", "src/sorter.py:Sorter")],
      "Values are symbolic; lists of two (thorough: three) resources, which determine the pairwise comparison. That the comparison is transitive on all values is not decided."),
    p("C21", "The data container is a case-insensitive map with extension namespaces",
      "Reading, writing, deleting, comparing and rendering resource data agree with one map whose names ignore letter case: a value written under a name is read back under any spelling, each extension has its own namespace, "
      "sub-attributes are reached through objects and through every item of a list, nothing else changes, and rendering keeps the first spelling and all values.",
      ["histories", "inputs"], "every sequence of reads, writes and deletions on every document shape",
      "Collisions of spellings, namespaces and shapes need particular histories.",
      ["src/data/container.py"], [("container", "src/data/container.py:SCIMDataContainer")],
      "All histories of up to two operations from ten document shapes with symbolic values, compared with a reference map after every history."),
    p("C22", "Attribute names are split, compared and rejected consistently",
      "Text is split into schema URN, attribute and sub-attribute, or rejected if it is not of that form. Two names denote the same attribute exactly when attribute and sub-attribute agree ignoring case and the schemas agree wherever both are given, "
      "symmetrically and in every look-up.",
      ["inputs"], "every attribute name",
      "Case variants, URN prefixes and near-miss texts combine freely.",
      ["src/data/container.py", "src/data/attributes.py"], [("attribute names", "src/data/container.py:AttrRep"), ("look-up", "src/data/attributes.py:Attributes")],
      "Representatives of every class of prefix, name and sub-name; the grammar of all texts is not proved."),
    p("C16", "Create and replace requests: required data checked, read-only data dropped",
      "A create or replace request reports the findings of its body and every missing required attribute or sub-attribute at its location (creation exempts exactly what the server issues); without findings "
      "the body handed on is the processed resource, from which a replace request drops exactly the read-only attributes and sub-attributes, in the core, in extensions and in every item. "
      "The attributes requested or excluded in the query string of any request about one resource become the checker for its response, malformed ones are reported, and headers and other parameters pass unchanged.",
      ["inputs", "configurations"], "every resource document, schema, header and query string",
      "Which of the many attribute kinds (core, extension, single, multi-valued, sub-attribute) are dropped or exempted is sampled by tests on the user schema only.",
      ["src/request_validators.py"], [("create and replace requests", "src/request_validators.py:ResourcesPOST, ResourceObjectPUT, ResourceObjectGET")],
      "The schema's own processing is a contract (fine, remark, finding, rejected); a synthetic schema has every combination of required, issuer, mutability and shape in core and extension; documents lack each relevant part in turn."),
    p("C17", "Single-resource and error responses are consistent with the protocol",
      "A response about one resource is reported unless its status is the operation's own, a created resource has a location header, a location header equals the resource's own location, and every required attribute is present "
      "(or the given checker is satisfied). An update without content is accepted only if no attributes were requested, a deletion must have no content, and an error's status lies in 300..599 and is repeated in its body. "
      "A response with findings has no body; one without has the processed resource as a plain mapping, with its headers.",
      ["inputs", "configurations"], "every status, header set, body and checker",
      "The rules interact (rejected location, missing header, checker, no content); tests sample one violation at a time.",
      ["src/request_validators.py"], [("responses about one resource", "src/request_validators.py:ResourceObjectGET, ResourceObjectPUT, ResourcesPOST, ResourceObjectPATCH, ResourceObjectDELETE"),
                                     ("errors", "src/request_validators.py:Error")],
      "Statuses and locations are symbolic, so one path stands for all; the schema's processing and the checker are contracts."),
    p("C18", "List responses: counts, paging, filter, order and types are all enforced",
      "A list response is reported exactly when its totals, page size, start index or paging data disagree with the resources or the request, a resource is not of an expected type or is reported by its own schema, does not "
      "(leniently) match the requested filter, is out of the requested order, or lacks required or shows hidden attributes. Every resource is judged by the schema that its own schemas field names. "
      "With findings there is no body, otherwise the processed resources.",
      ["inputs", "configurations"], "every number of results, page, filter, order and mix of resource types",
      "The counting rules are relations between five numbers, and the rest quantifies over every resource of the list.",
      ["src/request_validators.py", "src/assets/schemas/list_response.py"],
      [("list responses", "src/request_validators.py:ResourcesGET, ServerRootResourceGET, SearchRequestPOST"), ("list response schema", "src/assets/schemas/list_response.py:ListResponse")],
      "All numbers are symbolic integers (paths are the orderings between them); lists of 0 to 2 resources; filter, sorter, checker and the resources' schemas are contracts."),
    p("C27", "List and search requests: each parameter is converted or reported on its own",
      "In list and search requests filter, sorting, requested or excluded attributes, count and start index are each converted to what later judges the response, or reported at their own location without affecting the others. "
      "The sorter, checker and filter are exactly the ones asked for; other parameters, headers and body pass unchanged, and filtering schemas or resource types is refused.",
      ["inputs"], "every query string and search request",
      "Parameters combine freely, each in a well-formed, malformed, mistyped or absent state.",
      ["src/request_validators.py", "src/assets/schemas/search_request.py"],
      [("query parameters", "src/request_validators.py:parse_request_filtering, parse_request_sorting, parse_requested_attributes"),
       ("search request", "src/assets/schemas/search_request.py:SearchRequest"), ("metadata requests", "src/request_validators.py:SchemasGET, ResourceTypesGET")],
      "Filter parsing is a contract (accepted or rejected, any text); numbers and texts are symbolic; attribute names are representatives."),
    p("C12", "Filter expressions are read as exactly the condition they denote",
      "An accepted filter text becomes the condition it denotes: 'not' binds stronger than 'and', 'and' stronger than 'or', brackets group, a filter in square brackets or a sub-attribute applies to the complex attribute before it, operators ignore letter case, "
      "and each comparison keeps its attribute and its value with the value's type and exact text. Text that is not a filter (unbalanced or empty brackets, missing or unknown operators, bad values, bad names, unsupported value types) is rejected with a "
      "blocking finding saying so and gives no filter. Applying a filter evaluates that condition on the attribute's own value with the strictness asked for.",
      ["inputs", "programs"], "every filter expression: operators, values, nesting, spacing and position",
      "Expressions are recursive and values may look like syntax; the tests list about a hundred texts.",
      ["src/filter.py"], [("filter parsing, evaluation and equality", "src/filter.py:Filter")],
      "Constant propagation over enumerated skeletons: every nesting of and/or/not/groups with up to three conditions (thorough: four), every operator, every class of value and name, five spacings, 60 malformed shapes in "
      "three positions. The infinite grammar is represented by these classes, not proved."),
    p("C14", "PATCH requests: every operation is checked against the schema and its rights",
      "Each operation of a PATCH request is reported, at its own location, exactly when its kind is unknown, its path is malformed or names nothing in the schema, it removes what is required or without a path, changes or removes what is read-only "
      "(a sub-attribute or a part of the value included), adds without a value or through a filter without naming a sub-attribute, or its value is rejected by the attribute it addresses. With findings there is no body; without findings the operations are handed on in order, each with its kind, its path and the processed value.",
      ["inputs", "configurations"], "every operation kind, path shape, attribute kind, mutability and value",
      "Kind x path shape x attribute kind x mutability x required x value shape is a large product; tests sample a few of the user schema.",
      ["src/request_validators.py", "src/assets/schemas/patch_op.py"],
      [("PATCH operations", "src/assets/schemas/patch_op.py:PatchOp"), ("PATCH requests", "src/request_validators.py:ResourceObjectPATCH")],
      "A synthetic schema has every kind of attribute; its attributes' processing is a contract; one and two operations."),
    p("C15", "PATCH values: each part is judged by the attribute it addresses",
      "The value of an add or replace operation is processed by exactly the definition its path addresses: the whole resource without path, the attribute, its sub-attribute, or the filtered items' attribute or sub-attribute; values for several attributes are each "
      "processed by their own definition and located under their own name, extension attributes under the extension. Read-only attributes and sub-attributes are reported exactly when the value holds one, a new item of a multi-valued complex attribute must have its required sub-attributes, and what is handed on is the processed value.",
      ["inputs", "configurations"], "every value of every addressed attribute, of the core and of extensions",
      "Objects with several parts, items and rejected parts combine freely; the tests use single attributes of the user schema.",
      ["src/assets/schemas/patch_op.py"], [("values of PATCH operations", "src/assets/schemas/patch_op.py:PatchOp")],
      "Values are symbolic objects, lists of up to two items and non-objects; attribute processing is a contract."),
    p("C19", "Bulk operations are judged like the single requests and responses they stand for",
      "Every operation of a bulk request is reported exactly when its method, path, bulk identifier or data is missing or wrong, its resource is unknown, or the request for that resource and method would be reported, at the operation's own location; the limit on operations "
      "is enforced, and every operation of a bulk response is likewise judged by the response rules of its own resource, method and status. The number of errors must not exceed what the request allowed. "
      "Without findings the processed operations are handed on in order.",
      ["inputs", "configurations", "histories"], "every list of operations, methods, paths, statuses and bodies",
      "Each operation dispatches on method, path and status to the rules of another resource: a mix-up needs a particular mixture of operations.",
      ["src/request_validators.py", "src/assets/schemas/bulk_ops.py"],
      [("bulk requests and responses", "src/request_validators.py:BulkOperations"), ("bulk operation attributes", "src/assets/schemas/bulk_ops.py")],
      "Lists of up to two operations of any method, two resources; the single requests' and responses' rules are contracts (their own checks decide them); limits and counts are symbolic integers."),
    p("C26", "PATCH paths are read as the target they denote or rejected",
      "A path names an attribute, a sub-attribute, or items of an attribute selected by one filter and possibly one of their sub-attributes; the parts are exactly the ones the text names, whatever characters the quoted values hold. "
      "Any other text is rejected with a blocking finding, parts that do not belong together can not be combined, and two paths are equal exactly when all their parts are.",
      ["inputs"], "every path text and every combination of parts",
      "Quoted values may contain brackets and dots, so slicing mistakes need particular texts.",
      ["src/data/path.py"], [("path parsing, construction and equality", "src/data/path.py:PatchPath")],
      "Constant propagation over representatives of every path shape, 25 malformed shapes and name lengths 1 to 23; construction over all combinations of parts."),
    p("C01", "No message makes processing fail: it is reported and withheld, or clean",
      "Whatever JSON a client or the service hands to any endpoint, with any part of it missing, null or of any other type, processing returns a result and a set of findings and never raises. "
      "When anything is reported no body is handed on; when nothing is reported a body is handed on and no part of it is marked invalid.",
      ["inputs"], "every message of every endpoint with any one part (at any depth) replaced by any kind of JSON value, or absent",
      "Malformed messages are unboundedly many; tests feed a few malformed parts per attribute, and most crashes need one part of one message to be of one particular wrong type.",
      ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas"],
      [("endpoints", "src/request_validators.py"), ("schemas and attributes", "src/data/schemas.py, src/data/attributes.py"), ("message schemas", "src/assets/schemas")],
      "16 conforming messages covering every endpoint, data type and nesting; each of their about 460 locations in turn holds an arbitrary value of each of 15 kinds (symbolic within the kind) or nothing. One deviation at a time; texts that are "
      "parsed further (filters, paths, attribute names) are representatives."),
    p("C02", "A value of a wrong type is reported where it is, and nowhere else",
      "A message that conforms to its schema and to the protocol is accepted without findings. Replacing one value, at any depth, by a value of a JSON type its definition does not allow is always reported, "
      "and every finding that results lies at that value, inside it or at one of the parts that contain it.",
      ["inputs"], "every location of every kind of message, every wrong kind of JSON value",
      "Locations are composed by every layer (endpoint, message, operation, resource, extension, attribute, item, sub-attribute); a wrong prefix in one of them shows only for one nesting.",
      ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas"],
      [("endpoints", "src/request_validators.py"), ("schemas and attributes", "src/data/schemas.py, src/data/attributes.py"), ("message schemas", "src/assets/schemas")],
      "The messages of C01; the declared type at each location comes from an independent catalogue. Values the service itself assigns are exempt in requests."),
    p("C20", "Processing changes nothing of the caller's and leaves no trace",
      "Processing a message leaves the message, its headers and its query string exactly as the caller gave them. Its result depends only on the message and the endpoint's configuration, never on messages processed before: nothing that outlives a call "
      "(schemas, attributes, endpoints, filters, sorters, presence checkers, module data) is changed in a way that shows in a later call.",
      ["histories", "inputs"], "every message of every endpoint, malformed ones included, and any message before it",
      "The tests process one message per object and look only at the result, so shared state that accumulates does not show.",
      ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py", "src/filter.py", "src/sorter.py", "src/attributes_presence.py"],
      [("endpoints", "src/request_validators.py"), ("schemas and attributes", "src/data/schemas.py, src/data/attributes.py"), ("list queries", "src/filter.py, src/sorter.py, src/attributes_presence.py")],
      "Effect analysis: every write to an object that existed before the call is recorded on every path; writes to the caller's data are violations, writes to longer-lived objects are followed into a second processing of the same and of other messages.",
      technique="effect (mutation) analysis on top of abstract interpretation of the Python source"),
    p("C23", "Shipped schemas declare what the SCIM standard says",
      "The schemas that come with the library (user, enterprise user, group, service provider configuration, resource type, schema, and the list, search, patch, bulk and error messages) have exactly the attributes and sub-attributes of the SCIM standard under their standard URIs. "
      "Each has the standard's type, cardinality, required flag, case exactness, mutability, returned rule, uniqueness, suggested values and reference types, and is set by the standard's party (client, service or both); URIs and resource names match the standard. Three deviations are deliberate: search requests spell excludeAttributes, a user's groups.$ref is a plain URI reference, schemaExtensions is not read-only.",
      ["configurations"], "every attribute and sub-attribute of every shipped schema, every characteristic",
      "Several hundred declared characteristics, each with an effect in some request only; the tests touch a few of them.",
      ["src/assets/schemas/user.py", "src/assets/schemas/group.py", "src/assets/schemas/schema.py", "src/assets/schemas/resource_type.py", "src/assets/schemas/service_provider_config.py",
       "src/assets/schemas/list_response.py", "src/assets/schemas/search_request.py", "src/assets/schemas/patch_op.py", "src/assets/schemas/bulk_ops.py", "src/assets/schemas/error.py"],
      [("shipped schemas", "src/assets/schemas")],
      "Constant evaluation of the declarations, compared with a catalogue transcribed from RFC 7643 and RFC 7644.", technique="constant evaluation of the declarations in the source (abstract interpretation), compared with a catalogue"),
    p("C24", "Each kind of finding has its own code and states its details",
      "Every kind of finding is identified by one code that no other kind has, and its text and its rendering hold every detail it was given, each in its place; a finding reported by an endpoint states what was expected and what was there. Rendering a collection of findings nests them under their locations without losing any, and "
      "the protocol's error types are the standard's.",
      ["inputs"], "every kind of finding and every detail",
      "About fifty kinds; tests compare codes of those they happen to provoke and hardly look at details.",
      ["src/error.py", "src/assets/scim_error.py"], [("kinds of findings", "src/error.py:ValidationError"), ("protocol error types", "src/assets/scim_error.py")],
      "Complete enumeration of the kinds, details as marked texts; the details given where findings are reported are compared for 18 representative messages."),
    p("C25", "The service configuration has exactly the options it was given",
      "A service provider configuration states for every option exactly what it was given and declares the others unsupported, whatever combination is given. An option that needs limits (bulk, filtering) is refused when it is "
      "supported without them, and authentication schemes are kept in full.",
      ["configurations"], "every combination of options and their parameters",
      "Options are independent, each with defaults; tests build a few configurations.",
      ["src/assets/config.py"], [("configuration", "src/assets/config.py:create_service_provider_config")],
      "Options and limits are symbolic; combinations are enumerated."),
    p("C28", "Schema resources are consistent at every level of nesting",
      "In a schema resource every text attribute has to state case exactness and no other attribute keeps it, and sub-attributes are kept for complex attributes only. The same rules hold for sub-attributes at any depth, "
      "findings carry the location of the attribute they are about, and other parts are left as they are.",
      ["inputs"], "every attribute type, with or without case exactness and sub-attributes, nested",
      "Tests use the representation of one shipped schema, which is consistent throughout.",
      ["src/assets/schemas/schema.py"], [("schema resources", "src/assets/schemas/schema.py")],
      "All types, presence patterns and two levels of nesting (thorough: three)."),
    p("C29", "Data that was produced is read back unchanged",
      "For every resource schema and every resource that conforms to it, producing the resource is accepted again when it is read and gives the resource again: the same attributes, sub-attributes, items in order and extension data, "
      "with the same values, date-times and numbers included. Reading a resource and producing it again likewise gives what was read (a date-time may be written differently but is the same instant).",
      ["inputs"], "every attribute and sub-attribute of every resource schema, any value of its type, one or several items, in the core and in extensions",
      "The two directions are separate code for every type, attribute and schema; a loss in one of them shows only when the other is applied to its result, which the tests do not do.",
      ["src/data/type.py", "src/data/attributes.py", "src/data/schemas.py", "src/data/container.py", "src/assets/schemas"],
      [("types, both directions", "src/data/type.py"), ("attributes", "src/data/attributes.py"), ("schemas", "src/data/schemas.py"), ("rendering", "src/data/container.py:SCIMDataContainer.to_dict")],
      "Shipped resource schemas and one with every data type and an extension; one attribute at a time holds arbitrary (symbolic) values of its type. The standard library's fromisoformat is taken to be the inverse of isoformat, and isoformat of what "
      "fromisoformat reads to denote the same instant; the free-form parts of schema resources are C28."),
]

def na(id, title, statement, over, text, why, files, mechanism, reason):
    PROPS.append(p(id, title, statement, over, text, why, files, mechanism, ""))
    return {"property": id, "reason": reason}


NA = [
    na("N01", "Every filter of the standard's grammar is accepted and every other text refused",
       "The texts accepted as filters are exactly those of the filter grammar of RFC 7644, and writing an accepted filter out again and reading it gives the same condition.",
       ["inputs"], "every text", "The set of texts is infinite and the parser works by repeated substring replacement.",
       ["src/filter.py"], [("filter parsing", "src/filter.py:Filter.parse")],
       "The parser rewrites the text through regular expressions and placeholders; language equivalence of such a rewriting system with a grammar is outside what a sound static argument in reach can decide. C12 decides the classes listed there."),
    na("N03", "Processing time stays proportional to the size of the message",
       "Processing a message takes time proportional to its size; no filter, path or nesting makes it grow faster.",
       ["inputs"], "every message", "Tests use small messages.",
       ["src/filter.py", "src/request_validators.py"], [("regular expressions of the filter grammar", "src/filter.py")],
       "A bound on run time, including that of the regular expression engine, can not be derived from the source by the analyses in reach."),
]
