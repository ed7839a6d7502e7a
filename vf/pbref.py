"""Reference for payloads: the message libraries asked directly, and one against the other.

`rich` is a message with fields of every kind, known to both libraries.
"""
import os
import random

from google.protobuf import (any_pb2, descriptor_pb2, descriptor_pool, duration_pb2, empty_pb2, field_mask_pb2, json_format, message_factory,  # noqa: F401
                             struct_pb2, timestamp_pb2, wrappers_pb2)
from protobuf import Registry, wkt

from .proto import rich_pb

_fs = descriptor_pb2.FileDescriptorSet.FromString(open(os.path.join(os.path.dirname(__file__), "proto", "rich.binpb"), "rb").read())
_pool = descriptor_pool.Default()
_pool.Add(next(f for f in _fs.file if f.name == "rich.proto"))


def _g(n):
    return message_factory.GetMessageClass(_pool.FindMessageTypeByName(n))


G = {"rich": _g("verif.rich.Rich"), "leaf": _g("verif.rich.Leaf"), "string": wrappers_pb2.StringValue, "int": wrappers_pb2.Int64Value, "empty": empty_pb2.Empty,
     "struct": struct_pb2.Struct, "value": struct_pb2.Value, "ts": timestamp_pb2.Timestamp, "dur": duration_pb2.Duration, "any": any_pb2.Any,
     "mask": field_mask_pb2.FieldMask, "file": descriptor_pb2.FileDescriptorProto}
P = {"rich": rich_pb.Rich, "leaf": rich_pb.Leaf, "string": wkt.StringValue, "int": wkt.Int64Value, "empty": wkt.Empty, "struct": wkt.Struct,
     "value": wkt.Value, "ts": wkt.Timestamp, "dur": wkt.Duration, "any": wkt.Any, "mask": wkt.FieldMask, "file": wkt.FileDescriptorProto}
# the well-known types the default codec is documented to know, and the same with the message above
WKT = Registry(*[getattr(wkt, n).desc() for n in ("api_pb", "cpp_features_pb", "descriptor_pb", "duration_pb", "empty_pb", "field_mask_pb", "go_features_pb",
                                                  "java_features_pb", "source_context_pb", "struct_pb", "timestamp_pb", "type_pb", "wrappers_pb")])
FULL = Registry(*[getattr(wkt, n).desc() for n in ("api_pb", "cpp_features_pb", "descriptor_pb", "duration_pb", "empty_pb", "field_mask_pb", "go_features_pb",
                                                   "java_features_pb", "source_context_pb", "struct_pb", "timestamp_pb", "type_pb", "wrappers_pb")], rich_pb.desc())


def pdec(fmt, t, b, reg):
    return P[t].from_binary(bytes(b)) if fmt == "proto" else P[t].from_json(bytes(b), registry=reg)


def gdec(fmt, t, b):
    if fmt == "proto":
        return G[t].FromString(bytes(b))
    return json_format.Parse(bytes(b), G[t]())


def penc(fmt, m, reg):
    return m.to_binary() if fmt == "proto" else m.to_json(registry=reg).encode()


def genc(fmt, m):
    return m.SerializeToString() if fmt == "proto" else json_format.MessageToJson(m).encode()


def canon(t, m):
    """the same bytes for equal messages of either library"""
    if isinstance(m, P[t]):
        m = G[t].FromString(m.to_binary())
    if not isinstance(m, G[t]):
        return None
    return m.SerializeToString(deterministic=True)


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def decode(codec, t, b):
    """-> (what it means or None when it means nothing, whether both libraries say so)"""
    lib, fmt, reg = split(codec)
    lone = reg is WKT and fmt == "json" and lib == "p" and b"verif.rich" in bytes(b)
    p = attempt(lambda: pdec(fmt, t, b, reg if lone else FULL))
    a = None if p is None else attempt(lambda: canon(t, p))
    if p is not None and a is None:
        return None, False
    if lone:
        return a, True
    g = attempt(lambda: canon(t, gdec(fmt, t, b)))
    return a, a == g


def encode(codec, t, m):
    """-> (bytes or None, whether the other library reads the same message from them)"""
    lib, fmt, reg = split(codec)
    b = attempt(lambda: penc(fmt, m, reg) if lib == "p" else genc(fmt, m))
    if b is None:
        return None, True
    c = attempt(lambda: canon(t, m))
    return c, c is not None and other(codec, t, b) == c


def other(codec, t, b):
    """what the other library reads from bytes a codec wrote"""
    lib, fmt, reg = split(codec)
    return attempt(lambda: canon(t, gdec(fmt, t, b) if lib == "p" else pdec(fmt, t, b, FULL)))


def split(codec):
    return {"proto": ("p", "proto", WKT), "json": ("p", "json", WKT), "rjson": ("p", "json", FULL), "gproto": ("g", "proto", FULL), "gjson": ("g", "json", FULL)}[codec]


# ---------------------------------------------------------------- messages and payloads

I32 = [0, 1, -1, 127, 128, 2 ** 31 - 1, -2 ** 31, 300]
I64 = I32 + [2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63 - 1, -2 ** 63]
U32 = [0, 1, 127, 128, 2 ** 32 - 1]
U64 = U32 + [2 ** 53 + 1, 2 ** 64 - 1]
FL = [0.0, -0.0, 1.5, -2.25, 1e10, 1e-5, float("inf"), float("-inf"), float("nan"), 3.0]
STR = ["", "a", "é", "日本", "\U0001f600", "\u0000", "a\nb\t\"\\/", "\u2028", "0", "null", " pad ", "x" * 200, "<&>", "@type", "\x7f"]
BYT = [b"", b"\x00", b"\xff\xfe", b"abc", bytes(range(64)), b"\xfb\xef\xbe", b"x" * 300]
KEYS = ["", "a", "b", "é", "k\"", "1"]


def leaf(rng):
    return G["leaf"](name=rng.choice(STR), n=rng.choice(I64))


def jsonv(rng, d=0):
    r = rng.randrange(7 if d < 2 else 5)
    return [None, rng.choice([0, 1.5, -3, 1e20]), rng.choice(STR), True, False][r] if r < 5 else (
        [jsonv(rng, d + 1) for _ in range(rng.randrange(3))] if r == 5 else {rng.choice(KEYS): jsonv(rng, d + 1) for _ in range(rng.randrange(3))})


def putv(v, x):
    if x is None:
        v.null_value = 0
    elif isinstance(x, bool):
        v.bool_value = x
    elif isinstance(x, (int, float)):
        v.number_value = x
    elif isinstance(x, str):
        v.string_value = x
    elif isinstance(x, list):
        v.list_value.SetInParent()
        for y in x:
            putv(v.list_value.values.add(), y)
    else:
        v.struct_value.SetInParent()
        for k, y in x.items():
            putv(v.struct_value.fields[k], y)


def msg(t, rng, bad=False, reg=True):
    """a random message; bad: one JSON has no form for, when there is such"""
    m = G[t]()
    if t == "string":
        m.value = rng.choice(STR)
    elif t == "int":
        m.value = rng.choice(I64)
    elif t == "leaf":
        m = leaf(rng)
    elif t == "struct":
        for _ in range(rng.randrange(4)):
            putv(m.fields[rng.choice(KEYS)], jsonv(rng))
    elif t == "value":
        if not bad:
            putv(m, jsonv(rng))
    elif t in ("ts", "dur"):
        m.seconds = rng.choice([0, 1, -1, 1700000000, 253402300799, -62135596800] if t == "ts" else [0, 1, 59, 315576000000])
        m.nanos = rng.choice([0, 1000000, 123456789, 500])
        if bad:
            m.seconds = 10 ** 14
    elif t == "any":
        anyv(m, rng, bad, reg)
    elif t == "mask":
        m.paths.extend(rng.choice(["a", "a.b", "foo_bar", "a.foo_bar"]) for _ in range(rng.randrange(3)))
        if bad:
            m.paths.append(rng.choice(["fooBar", "a__b", "a_3"]))
    elif t == "file":
        m.name = rng.choice(STR[1:4])
        m.dependency.extend(rng.choice(STR[1:4]) for _ in range(rng.randrange(3)))
        for _ in range(rng.randrange(2)):
            x = m.message_type.add(name="M")
            f = x.field.add(name="f", number=rng.choice([1, 2, 536870911]), label=1, type=rng.choice([5, 9, 11]))
            if rng.random() < .5:
                f.default_value = ""
        if rng.random() < .3:
            m.options.java_package = "x"
            m.options.deprecated = False
    elif t == "rich":
        rich(m, rng, bad, reg)
    return m


def anyv(a, rng, bad, reg):
    if bad:
        a.type_url = rng.choice(["type.googleapis.com/no.such.Type", "no-slash", "type.googleapis.com/google.protobuf.StringValue"])
        a.value = b"\xff\xff" if "String" in a.type_url else b"\x08\x01"
        return
    r = rng.random()
    if r < .15:
        return
    a.Pack(leaf(rng) if reg and r < .5 else msg(rng.choice(["string", "int", "struct", "ts", "dur", "empty", "mask"]), rng))


def rich(m, rng, bad, reg, depth=0):
    fs = list(m.DESCRIPTOR.fields)
    for f in rng.sample(fs, rng.choice([0, 1, 2, 5, 12, len(fs)])):
        n = f.name
        sc = {"double": FL, "float": FL, "int32": I32, "int64": I64, "uint32": U32, "uint64": U64, "sint32": I32, "sint64": I64, "fixed32": U32, "fixed64": U64,
              "sfixed32": I32, "sfixed64": I64}
        ty = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 12: "bytes", 13: "uint32",
              14: "enum", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64", 11: "message"}[f.type]
        if n == "counts":
            for _ in range(rng.randrange(3)):
                m.counts[rng.choice(KEYS)] = rng.choice(I64)
        elif n == "by_id":
            for _ in range(rng.randrange(3)):
                m.by_id[rng.choice(I32)].CopyFrom(leaf(rng))
        elif n == "by_flag":
            m.by_flag[rng.random() < .5] = rng.choice(BYT)
        elif ty == "message":
            if n in ("leaf", "pick_leaf"):
                getattr(m, n).CopyFrom(leaf(rng))
            elif n == "leaves":
                m.leaves.extend(leaf(rng) for _ in range(rng.randrange(3)))
            elif n == "self":
                if depth < 2:
                    m.self.SetInParent()
                    rich(m.self, rng, False, reg, depth + 1)
            elif n == "anys":
                for _ in range(rng.randrange(3)):
                    anyv(m.anys.add(), rng, False, reg)
            elif n == "list":
                m.list.SetInParent()
                for _ in range(rng.randrange(3)):
                    putv(m.list.values.add(), jsonv(rng))
            else:
                k = {"any": "any", "ts": "ts", "dur": "dur", "mask": "mask", "st": "struct", "val": "value", "ws": "string", "wi": "int", "wb": "wb"}[n]
                getattr(m, n).CopyFrom(wrappers_pb2.BytesValue(value=rng.choice(BYT)) if k == "wb" else msg(k, rng, False, reg))
        else:
            mk = {"bool": lambda: rng.random() < .7, "string": lambda: rng.choice(STR), "bytes": lambda: rng.choice(BYT),
                  "enum": lambda: 0 if n == "pick_null" else rng.choice([0, 1, 5, -3, 77])}.get(ty) or (lambda: rng.choice(sc[ty]))
            if f.is_repeated if hasattr(f, "is_repeated") else f.label == 3:
                getattr(m, n).extend(mk() for _ in range(rng.randrange(4)))
            else:
                setattr(m, n, mk())
    if bad:
        k = rng.choice(["any", "ts", "val", "mask", "deep"])
        if k == "any":
            anyv(m.any, rng, True, reg)
        elif k == "ts":
            m.ts.seconds = 10 ** 14
        elif k == "val":
            m.val.SetInParent()
            m.val.Clear()
            m.list.values.add()
        elif k == "mask":
            m.mask.paths.append("fooBar")
        else:
            m.self.anys.add().CopyFrom(msg("any", rng, True, reg))


def vint(n):
    out = b""
    while True:
        out += bytes([n & 127 | (128 if n > 127 else 0)])
        n >>= 7
        if not n:
            return out


UNKNOWN = [vint(500 << 3) + b"\x05", vint(501 << 3 | 2) + b"\x03abc", vint(502 << 3 | 5) + b"abcd", vint(503 << 3 | 1) + b"12345678",
           vint(504 << 3 | 3) + b"\x08\x01" + vint(504 << 3 | 4)]
BADBIN = [b"\x06", b"\x07", b"\x00\x01", b"\x0c", vint(15 << 3 | 2) + b"\x7fab", vint(14 << 3 | 2) + b"\x02\xc3\x28", b"\x18" + b"\xff" * 10 + b"\x01",
          vint(504 << 3 | 3) + b"\x08\x01", b"\x0a\xff\xff\xff\xff\x0f", b"\x80", b"{", b"\xff" * 12, b"\x09\x01"]
BADJSON = [b"", b" ", b"{", b"}", b"{}{}", b"{}x", b"{}\x00", b"[]", b"null", b"\xff\xfe", b"'x'", b'{"nope":1}', b'{"i32":"x"}', b'{"i32":2147483648}',
           b'{"i32":1.5}', b'{"u32":-1}', b'{"colour":"NOPE"}', b'{"pickS":"a","pickN":"1"}', b'{"raw":"*"}', b'{"d":NaN}', b'{"s":"\xc3\x28"}', b'{"b":1}',
           b'{"b":"true"}', b'{"s":1}', b'{"nums":1}', b'{"leaf":[]}', b'{"ts":"yesterday"}', b'{"dur":"5"}', b'{"i64":9223372036854775808}', b'{"d":1,}',
           b'{"counts":{"a":"x"}}', b'{"byId":{"x":{}}}', b'{i32:1}', b'{"any":{"@type":"type.googleapis.com/no.such.Type"}}', b'{"any":{"x":1}}',
           b'{"words":[null]}', b"\xef\xbb\xbf{}", b'{"byFlag":{"yes":""}}', b"tru", b"\x0a\x01a", b'{"leaf":{"nope":1}}', b'{"i32":true}', b'{"wi":"x"}', b"// c\n{}"]
GOODJSON = [b"{}", b" {} ", b"\n{\n}\t", b'{"i32":null}', b'{"i64":5}', b'{"i64":"5"}', b'{"i32":"7"}', b'{"i32":1e2}', b'{"i32":3.0}', b'{"snake_case_name":"a"}',
            b'{"snakeCaseName":"a"}', b'{"@custom":"q"}', b'{"other":"q"}', b'{"raw":"-_-_"}', b'{"raw":"+/+/"}', b'{"raw":"YQ"}', b'{"raw":"YQ=="}', b'{"d":"NaN"}',
            b'{"d":"Infinity"}', b'{"f":"-Infinity"}', b'{"d":"1.5"}', b'{"colour":1}', b'{"colour":77}', b'{"colour":"COLOUR_RED"}', b'{"s":"\\u00e9\\ud83d\\ude00"}',
            b'{"pickNull":null}', b'{"optN":0}', b'{"optS":""}', b'{"byFlag":{"true":"YQ=="}}', b'{"byId":{"-1":{"n":"3"}}}', b'{"val":null}', b'{"ws":null}', b'{"ws":""}',
            b'{"ts":"2020-01-02T03:04:05.5Z"}', b'{"ts":"2020-01-02T03:04:05+01:00"}', b'{"dur":"1.500s"}', b'{"mask":"fooBar,a.bC"}', b'{"st":{"a":[1,null,{"b":true}]}}',
            b'{"any":{"@type":"type.googleapis.com/google.protobuf.StringValue","value":"x"}}', b'{"any":{"value":"3s","@type":"type.googleapis.com/google.protobuf.Duration"}}',
            b'{"any":{"@type":"type.googleapis.com/verif.rich.Leaf","name":"x"}}', b'{"self":{"self":{"i32":3}}}', b'{"wi":"9007199254740993"}', b'{"words":["","a"]}',
            b'{"nums":[]}', b'{"leaves":[{},{"name":"x"}]}', b'{"any":{}}']


def body(codec, t, rng, good):
    """bytes meant to be a payload of that codec, well-formed or not (the reference has the last word)"""
    _, fmt, reg = split(codec)
    m = msg(t, rng, False, True)
    if fmt == "proto":
        b = m.SerializeToString()
        if good:
            r = rng.random()
            if r < .15:
                b += msg(t, rng).SerializeToString()
            elif r < .3:
                b = rng.choice(UNKNOWN) + b + rng.choice(UNKNOWN)
            elif r < .4:
                b = b""
            elif r < .5 and t == "rich":
                b += b"".join(vint(18 << 3) + vint(v) for v in (1, 2, 300))  # unpacked
            elif r < .6 and t == "rich":
                b += b"\x98\x01" [:0] + vint(3 << 3) + b"\x85\x80\x00"  # a longer varint than needed
            return b
        r = rng.random()
        if r < .35 and len(b) > 1:
            return b[:rng.randrange(1, len(b))]
        if r < .55:
            return rng.choice(BADBIN)
        if r < .8:
            return b + rng.choice(BADBIN)
        if r < .9 and b:
            i = rng.randrange(len(b))
            return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
        return attempt(lambda: json_format.MessageToJson(m).encode()) or b"{}"
    if good:
        if t == "rich" and rng.random() < .4:
            return rng.choice(GOODJSON)
        return attempt(lambda: json_format.MessageToJson(m, preserving_proto_field_name=rng.random() < .3, indent=rng.choice([None, 1]), ensure_ascii=rng.random() < .5,
                                                         use_integers_for_enums=rng.random() < .3,
                                                         always_print_fields_with_no_presence=rng.random() < .2).encode()) or b"{}"
    b = attempt(lambda: json_format.MessageToJson(m).encode()) or b"{}"
    r = rng.random()
    if r < .25 and len(b) > 1:
        return b[:rng.randrange(1, len(b))]
    if r < .32:
        return b""
    if r < .7:
        return rng.choice(BADJSON)
    if r < .85:
        return b + rng.choice([b"x", b"{}", b",", b"\x00", b"null"])
    if r < .95:
        i = rng.randrange(len(b))
        return b[:i] + bytes([rng.randrange(256)]) + b[i + 1:]
    return m.SerializeToString() or b"\x0a"
