"""C05: which values each SCIM data type accepts, in both directions."""
from .common import *

KINDS = ["none", "bool", "int", "float", "str", "list", "dict", "cont", "datetime", "other", "invalid", "missing"]
REF = '''
import base64
import math
from datetime import datetime
from urllib.parse import urlparse

def is_base64(value):
    try:
        raw = bytes(value, "ascii")
        return base64.b64encode(base64.b64decode(raw)) == raw
    except ValueError:
        return False

def is_url(value):
    try:
        r = urlparse(value)
    except ValueError:
        return False
    if r.scheme:
        if r.netloc:
            return True
    return False

def is_datetime(value):
    try:
        datetime.fromisoformat(value)
        return True
    except ValueError:
        return False

def to_datetime(value):
    return datetime.fromisoformat(value)

def is_integral(value):
    return value.is_integer()

def is_finite(value):
    return math.isfinite(value)

def to_int(value):
    return int(value)

def to_float(value):
    return float(value)

def fits(value):
    try:
        float(value)
        return True
    except OverflowError:
        return False

def iso(value):
    return value.isoformat()
'''
# type -> direction -> accepted kinds
ACCEPT = {
    "Boolean": ({"bool"}, {"bool"}),
    "Decimal": ({"float", "int"}, {"float", "int"}),
    "Integer": ({"int", "float"}, {"int", "float"}),
    "String": ({"str"}, {"str"}),
    "Binary": ({"str"}, {"str"}),
    "ExternalReference": ({"str"}, {"str"}),
    "URIReference": ({"str"}, {"str"}),
    "SCIMReference": ({"str"}, {"str"}),
    "DateTime": ({"str"}, {"datetime"}),
    "Complex": ({"cont"}, {"cont"}),
}
SCIM_NAME = {"Boolean": "boolean", "Decimal": "decimal", "Integer": "integer", "String": "string",
             "Binary": "binary", "ExternalReference": "reference", "URIReference": "reference",
             "SCIMReference": "reference", "DateTime": "dateTime", "Complex": "complex"}


def one_blocking(I, iss, code, what):
    es, ts = entries(I, iss)
    expect(not ts, f"{what}: issues are undetermined")
    expect(len(es) >= 1, f"{what}: no issue reported")
    expect(len(es) == 1, f"{what}: {len(es)} issues reported: {es}")
    expect(es[0] == ((), code, True), f"{what}: reported {es[0]}, expected one blocking issue {code} at the value")


def run(I, T, meth_name, kind, dir_, tname):
    v = opaque(I, "value", kinds=[kind])
    v = I.norm(v)
    if kind == "cont":
        v = I.as_cont(v)
    out, iss = pair(I, I.call(I.getattr(T, meth_name), [v], {}))
    R = lambda f: ref(I, REF, f)
    what = f"{tname}.{meth_name} of a {kind} value"
    ok = kind in ACCEPT[tname][dir_]
    code = 2
    if ok:
        if tname == "Binary":
            ok = I.truth(I.call(R("is_base64"), [v], {}))
            code = 3
            what += " (base64)" if ok else " (not base64)"
        elif tname == "ExternalReference":
            ok = I.truth(I.call(R("is_url"), [v], {}))
            code = 8
            what += " (absolute URL)" if ok else " (not an absolute URL)"
        elif tname == "DateTime" and dir_ == 0:
            ok = I.truth(I.call(R("is_datetime"), [v], {}))
            code = 1
            what += " (ISO date)" if ok else " (not a date)"
        elif tname == "Integer" and kind == "float":
            ok = I.truth(I.call(R("is_integral"), [v], {}))
            what += " (integral)" if ok else " (not integral)"
        elif tname == "Decimal":
            ok = I.truth(I.call(R("is_finite" if kind == "float" else "fits"), [v], {}))
            code = 1
            what += " (finite)" if ok else " (not finite)"
    if not ok:
        expect(same(I, out, I.Invalid), f"{what}: returns {out!r} instead of the invalid marker")
        one_blocking(I, iss, code, what)
        return
    es, ts = entries(I, iss)
    expect(not es and not ts, f"{what}: rejected with {es}")
    want = v
    if tname == "DateTime":
        want = I.call(R("to_datetime" if dir_ == 0 else "iso"), [v], {})
    elif tname == "Integer" and kind == "float":
        want = I.call(R("to_int"), [v], {})
    elif tname == "Decimal" and kind == "int":
        want = I.call(R("to_float"), [v], {})
    if tname == "Integer" and kind == "float":
        expect(kind_of(I, out) == "int", f"{what}: returns a {kind_of(I, out)}")
    expect(same(I, out, want) or (tname == "Integer" and I.eq(out, v)), f"{what}: returns {out!r}, expected {want!r}")


def c05(ctx):
    I = ctx.interp()
    ctx.rule("for each data type, direction and kind of value: accepted and converted as the catalogue says, or "
             "rejected with the invalid marker and exactly one blocking issue of the right code")
    for tname in ACCEPT:
        T = ctx.get(I, "src.data.type:" + tname)
        nm = I.norm(I.getattr(T, "SCIM_NAME"))
        ctx.fact(f"name of {tname}", nm == SCIM_NAME[tname], f"type {tname} is published as {nm!r}")
        for dir_, m in enumerate(("parse", "dump")):
            for kind in KINDS:
                ctx.case(I, f"{tname}.{m} {kind}",
                         lambda I, T=T, m=m, kind=kind, d=dir_, t=tname: run(I, T, m, kind, d, t))
    T = ctx.get(I, "src.data.type:Unknown")
    for m in ("parse", "dump"):
        for kind in KINDS:
            def anyv(I, m=m, kind=kind):
                v = I.norm(opaque(I, "value", kinds=[kind]))
                out, iss = pair(I, I.call(I.getattr(T, m), [v], {}))
                expect(same(I, out, v) and entries(I, iss) == ([], []), f"untyped {m} of a {kind} value changes it")
            ctx.case(I, f"Unknown.{m} {kind}", anyv)
    # the name used for provided values in type errors
    g = ctx.get(I, "src.data.type:get_scim_type")
    for py, want in (("bool", "boolean"), ("int", "integer"), ("float", "decimal"), ("str", "string"), ("list", "list")):
        def nm(I, py=py, want=want):
            from pyai.core import BT
            v = I.norm(I.call(g, [BT[py]], {}))
            expect(v == want, f"{py} values are described as {v!r}, expected {want!r}")
        ctx.case(I, f"type name {py}", nm)
