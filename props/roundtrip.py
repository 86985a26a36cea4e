"""C29: what was produced is read back unchanged."""
from .common import *
from .schemas import plain, plain_same
from .shipped import SCHEMAS, CORE, ENTERPRISE, ENT as SHIPPED_ENT, declared
from .whole import THING_TEXT, EXT_TEXT, THING_URN, ENT, thing
from pyai.values import Sym

KIND = {"String": "str", "Boolean": "bool", "Integer": "int", "Decimal": "float", "DateTime": "datetime", "ExternalReference": "str", "URIReference": "str", "SCIMReference": "str", "Binary": "str"}
FIXED = {"ExternalReference": "https://example.com/", "Binary": "Zm9v"}
BASE = {"User": {"userName": "u"}, "Group": {"displayName": "g"},
        "ResourceType": {"name": "User", "endpoint": "https://example.com/Users", "schema": CORE + "User"},
        "Schema": {"name": "n"}, "ServiceProviderConfig": {}, "thing": {"userName": "u"}}


def c29(ctx):
    I = ctx.interp(native_cont=False)
    ctx.rule("for every schema, producing a resource and reading the result gives the resource again, and reading and producing it again gives what was read; each attribute and sub-attribute holds any value of its type")
    TEXT = {n.split(":")[1]: t for n, (u, t, *_) in SCHEMAS.items() if u.startswith(CORE)}
    EXT = {"User": (SHIPPED_ENT, ENTERPRISE), "thing": (ENT, EXT_TEXT)}
    URN = {n.split(":")[1]: u for n, (u, *_) in SCHEMAS.items()}
    TEXT["thing"], URN["thing"] = THING_TEXT, THING_URN

    def build(I):
        out = {"thing": thing(ctx, I)}
        for n, (u, *_) in SCHEMAS.items():
            if u.startswith(CORE):
                out[n.split(":")[1]] = I.call(ctx.get(I, "src.assets.schemas." + n), [], {})
        return out
    made = ctx.setup(I, build)
    decl = {n: declared(t) for n, t in TEXT.items()}
    ext = {n: (u, declared(t)) for n, (u, t) in EXT.items()}
    top = {n: [("", a) for a in decl[n] if "." not in a and a != "schemas"] + [(ext[n][0], a) for a in (ext[n][1] if n in ext else ()) if "." not in a] for n in decl}

    def run(I):
        n = pick(I, "schema", list(top))
        where, a = pick(I, "attribute", top[n])
        D = ext[n][1] if where else decl[n]
        back = pick(I, "direction", ["produce and read", "read and produce"])
        d = D[a]
        subs = [k for k in D if k.startswith(a + ".") and D[k]["type"] != "Unknown"]
        if d["type"] == "Unknown" or n == "Schema" and a == "attributes":
            raise Skip("no data type of its own")        # the attributes of a schema resource: see C28

        def one(D, k, tag, dates):
            x = D[k]
            if x["canon"] and x["enforced"]:
                return pick(I, f"{k} {tag}", list(x["canon"])) if alone else x["canon"][-1]
            if not alone and x["type"] in FIXED:
                return FIXED[x["type"]] + tag[0]*4
            if k == "meta.resourceType":
                return "User" if n == "thing" else n
            kind = KIND[x["type"]]
            if kind == "datetime" and not dates:
                return opaque(I, f"{k} {tag}", kinds=["str"])
            return opaque(I, f"{k} {tag}", kinds=[kind])

        def value(tag, dates, which):
            if d["type"] != "Complex":
                return one(D, a, tag, dates)
            o = {}
            for k in which:
                s = k.split(".")[1]
                if s == "primary":
                    o[s] = tag == "first"
                elif D[k]["multi_valued"]:
                    o[s] = [one(D, k, tag + " a", dates), one(D, k, tag + " b", dates)]
                else:
                    o[s] = one(D, k, tag, dates)
            return o
        dates = back == "produce and read"
        which, alone = subs, True
        if d["type"] == "Complex":
            w = pick(I, "sub-attributes", ["all", *subs])
            alone = w != "all"
            which = subs if w == "all" else [k for k in subs if k == w or D[k]["required"]]
        if d["multi_valued"]:
            m = pick(I, "items", [0, 1, 2] if d["type"] != "Complex" or w == "all" else [1])
            v = [value(t, dates, which) for t in ("first", "second")[:m]]
        else:
            v = value("only", dates, which)
        form = pick(I, "form", ["plain", "upper case", "with extension"] if d["type"] != "Complex" or w == "all" else ["plain"])
        spell = str.upper if form == "upper case" else str
        doc = {"schemas": [URN[n]], "id": "1", **BASE[n]}
        doc = {k: x for k, x in doc.items() if where or k != a}
        if n in ext and (where or form == "with extension"):
            doc["schemas"] = [URN[n], ext[n][0]]
            doc[ext[n][0]] = {"number": "5"} if n == "thing" else {"employeeNumber": "5"}
        target = doc
        if where:
            target = doc[where]
            target.pop(a, None)
        if a == "meta" and "resourceType" not in v:
            v["resourceType"] = "User" if n == "thing" else n
        target[spell(a)] = v
        if form == "with extension" and (where or n not in ext):
            raise Skip()
        s = made[n]
        first, second = ("dump", "parse") if dates else ("parse", "dump")
        label = f"{n}: {where + ' ' if where else ''}{a}"
        r, iss = pair(I, meth(I, s, first, jd(I, doc)))
        es, ts = entries(I, iss)
        if es or ts:
            raise Skip("does not conform")
        out = meth(I, r, "to_dict")
        r2, iss = pair(I, meth(I, s, second, out))
        es, ts = entries(I, iss)
        expect(not es and not ts, f"{label}: what was {'produced is reported when it is read' if dates else 'read is reported when it is produced'}: {es} {ts}")
        got = plain(I, r2)

        def clean(x):
            if isinstance(x, dict):
                return {k: clean(y) for k, y in x.items()}
            if isinstance(x, list):
                return [clean(y) for y in x]
            x = I.norm(x)
            if not dates and isinstance(x, Sym) and x.op == "isoformat" and len(x.args) == 1:
                y = I.norm(x.args[0])
                if isinstance(y, Sym) and y.op == "date":
                    return y.args[0]
            return x
        want = plain(I, jd(I, doc))
        expect(plain_same(I, clean(got), want), f"{label}: {back} gives {got}, expected {want}")
    ctx.case(I, "one attribute of any value", run, max_paths=60000)
