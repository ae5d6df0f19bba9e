"""Which declarations each property is decided on, and with which checks.

A profile: (tag, kind, options, checks, crate features, quick count, cases per check).  `kind` is the
main declaration: struct, enum or benum.  Thorough runs use more declarations and more cases.
"""
from gen import opts

STD = ("std", "derive")
DYN = ("std", "derive", "dyn_fns")
HEX = ("std", "derive", "hex_fns")
ALL = ("std", "derive", "dyn_fns", "hex_fns")

# everything mixed
MIX = dict(special=0.12, nest=0.1, prim=0.1)
# bare layouts: sequential fields only
BARE = dict(reverse=0, lsb0=0, fill=0, perm=0, bits=0, enforce=0, arr=0.1)
BE = dict(endian=[("be", 1)], fendian=0)
INTS = [("u", 8), ("i", 8)]
ENUM = dict(lsb0=0)     # read_from on enums: see known_findings.json


def P(tag, kind, o, checks, feats=STD, n=400, cases=100):
    o = dict(o)
    if kind == "enum":
        o.update(ENUM)
    return {"tag": tag, "kind": kind, "opts": opts(**o), "checks": checks, "feats": feats, "n": n, "cases": cases}


LAYOUT = ["encode", "decode", "read", "filler", "encode_wild"]

NAMES = ["roundtrip", "encode", "decode", "read", "writes", "slices", "slice_ops", "stream", "hexes", "agree", "consts"]

PROFILES = {
    "C01": [
        P("mix", "struct", dict(MIX), ["roundtrip"], n=900, cases=150),
        P("bare", "struct", dict(BARE, kinds=INTS), ["roundtrip"], n=400, cases=150),
        P("arrays", "struct", dict(arr=0.6, special=0.05), ["roundtrip"], n=300, cases=100),
        P("sweep", "sweep", dict(), ["roundtrip"], n=560, cases=80),
    ],
    "C02": [
        P("bare", "struct", dict(BARE, **BE), LAYOUT, n=600),
        P("mix", "struct", dict(MIX, special=0.05, reverse=0, lsb0=0, **BE), LAYOUT, n=400),
        P("ranges", "struct", dict(BE, reverse=0, lsb0=0, bits=0.6, perm=0.5), LAYOUT, n=300),
        P("perfield", "struct", dict(reverse=0, lsb0=0, endian=[("le", 2), ("be", 1), (None, 1)], fendian=1, fends=["be"]), LAYOUT, n=200),
        P("reversed", "struct", dict(MIX, reverse=0.7, lsb0=0.5, **BE), LAYOUT, n=150),
        P("enums", "enum", dict(MIX, **BE), ["encode", "decode", "read", "filler"], n=150),
        P("sweep", "sweep", dict(BE, reverse=0, lsb0=0), LAYOUT, n=560, cases=40),
    ],
    "C03": [
        P("bare", "struct", dict(BARE, endian=[("le", 3), (None, 1)], fendian=0), LAYOUT, n=600),
        P("mix", "struct", dict(MIX, special=0.05, reverse=0, lsb0=0, endian=[("le", 3), (None, 2), ("be", 1)], fendian=0.3), LAYOUT, n=400),
        P("perfield", "struct", dict(reverse=0, lsb0=0, endian=[("be", 2), ("le", 1), (None, 1)], fendian=0.7), LAYOUT, n=300),
        P("reversed", "struct", dict(MIX, endian=[("le", 3), (None, 1)], reverse=0.7, lsb0=0.5), LAYOUT, n=150),
        P("enums", "enum", dict(MIX, endian=[("le", 3), (None, 1)]), ["encode", "decode", "read", "filler"], n=150),
        P("sweep", "sweep", dict(endian=[("le", 3), (None, 1)], fendian=0, reverse=0, lsb0=0), LAYOUT, n=560, cases=40),
    ],
    "C04": [
        P("reverse", "struct", dict(MIX, reverse=1, lsb0=0), ["encode", "decode", "read", "writes", "roundtrip"], n=350),
        P("lsb0", "struct", dict(MIX, reverse=0, lsb0=1), ["encode", "decode", "read", "writes", "roundtrip"], n=350),
        P("both", "struct", dict(MIX, reverse=1, lsb0=1, fill=0.3), ["encode", "decode", "read", "writes", "roundtrip"], n=350),
        P("enums", "enum", dict(reverse=1), ["encode", "decode", "read", "writes"], n=150),
        P("slices", "struct", dict(MIX, reverse=0.7, lsb0=0.7), ["dynamic", "slices"], feats=DYN, n=120, cases=60),
        P("sweep", "sweep", dict(reverse=1, lsb0=0), ["encode", "decode", "writes"], n=560, cases=40),
        P("sweep2", "sweep", dict(reverse=0, lsb0=1), ["encode", "decode", "writes"], n=280, cases=40),
        P("sweep3", "sweep", dict(reverse=1, lsb0=1), ["encode", "decode", "writes"], n=280, cases=40),
    ],
    "C05": [
        P("mix", "struct", dict(MIX), ["writes", "undo"], n=700, cases=150),
        P("bare", "struct", dict(BARE), ["writes", "undo"], n=500, cases=150),
        P("arrays", "struct", dict(arr=0.6), ["writes", "undo"], n=250),
        P("enums", "enum", dict(MIX), ["writes", "undo"], n=200),
        P("slices", "struct", dict(MIX), ["slices", "slice_ops"], feats=DYN, n=120, cases=60),
        P("sweep", "sweep", dict(), ["writes", "undo"], n=560, cases=60),
    ],
    "C06": [
        P("mix", "struct", dict(MIX, special=0.2), ["agree", "read"], n=800, cases=120),
        P("enums", "enum", dict(MIX), ["agree", "read"], n=250),
        P("slices", "struct", dict(MIX, special=0.2), ["agree", "slices", "dynamic"], feats=DYN, n=120, cases=60),
        P("sweep", "sweep", dict(), ["agree", "read"], n=280, cases=60),
    ],
    "C07": [
        P("signed", "struct", dict(kinds=[("i", 10), ("char", 2), ("u", 2)], reverse=0.25, lsb0=0.25), ["wild", "encode_wild", "decode", "read"], n=700),
        P("bare", "struct", dict(BARE, kinds=[("i", 1)]), ["wild", "encode_wild", "decode", "read"], n=400),
        P("mix", "struct", dict(MIX), ["wild", "encode_wild", "decode"], n=300),
        P("chars", "struct", dict(kinds=[("char", 1)], reverse=0.25, lsb0=0.25, arr=0.3), ["wild", "encode_wild", "decode", "read"], n=150),
        P("enums", "enum", dict(kinds=[("i", 10), ("char", 2)]), ["wild", "encode_wild", "decode"], n=150),
        P("slices", "struct", dict(kinds=[("i", 10), ("char", 2), ("u", 2)]), ["dynamic", "slices"], feats=DYN, n=120, cases=60),
        P("sweep", "sweep", dict(kinds=[("i", 1), ("char", 1)]), ["wild", "encode_wild", "decode", "read"], n=400, cases=60),
    ],
    "C08": [
        P("arrays", "struct", dict(arr=0.9), LAYOUT + ["writes", "roundtrip"], n=700),
        P("mix", "struct", dict(MIX, arr=0.8, nest=0.25, prim=0.25), LAYOUT + ["writes", "roundtrip"], n=300),
        P("enums", "enum", dict(arr=0.8), ["encode", "decode", "read", "writes"], n=150),
        P("slices", "struct", dict(MIX, arr=0.8), ["dynamic", "slices"], feats=DYN, n=120, cases=60),
    ],
    "C09": [
        P("nested", "struct", dict(nest=0.7, arr=0.25), LAYOUT + ["writes", "roundtrip"], n=700),
        P("mix", "struct", dict(MIX, nest=0.5), LAYOUT + ["writes", "roundtrip", "agree"], n=300),
        P("enums", "enum", dict(nest=0.6), ["encode", "decode", "read", "writes", "roundtrip"], n=200),
        P("slices", "struct", dict(nest=0.6, arr=0.25), ["dynamic", "slices"], feats=DYN, n=100, cases=60),
    ],
    "C10": [
        P("special", "struct", dict(special=0.8), ["encode", "decode", "read", "roundtrip", "agree", "writes", "filler"], n=700),
        P("mix", "struct", dict(MIX, special=0.6), ["encode", "decode", "read", "roundtrip", "agree", "writes"], n=250),
        P("enums", "enum", dict(special=0.7), ["encode", "decode", "read", "roundtrip", "agree", "writes"], n=200),
        P("slices", "struct", dict(special=0.8), ["dynamic", "slices"], feats=DYN, n=150, cases=60),
    ],
    "C11": [
        P("mix", "struct", dict(MIX, fill=0.5, enforce=0.5, special=0.3), ["consts", "filler", "encode"], n=700, cases=60),
        P("bare", "struct", dict(fill=0.2, enforce=0.5), ["consts", "filler"], n=500, cases=60),
        P("enums", "enum", dict(MIX, fill=0.3, enforce=0.5, vattrs=0.4), ["consts", "filler"], n=300, cases=60),
    ],
    "C13": [
        P("ids", "enum", dict(maxf=3), ["ids", "all_ids", "decode"], n=800, cases=60),
        P("mix", "enum", dict(MIX), ["ids", "all_ids", "decode"], n=300, cases=60),
        P("wide", "enum", dict(wide_only=True), ["ids", "decode"], n=200, cases=100),
        P("slices", "enum", dict(maxf=3), ["dynamic", "slices"], feats=DYN, n=120, cases=60),
    ],
    "C14": [
        P("mix", "enum", dict(MIX), ["roundtrip", "encode", "decode", "consts", "filler"], n=600),
        P("plain", "enum", dict(special=0, vattrs=0), ["roundtrip", "encode", "decode", "consts", "filler"], n=500),
        P("slices", "enum", dict(MIX), ["dynamic", "slices"], feats=DYN, n=120, cases=60),
    ],
    "C15": [
        P("capture", "enum", dict(capture=1.0), ["capture", "ids", "roundtrip", "decode"], n=700),
        P("mix", "enum", dict(MIX, capture=1.0, vattrs=0.3), ["capture", "ids", "roundtrip"], n=300),
        P("slices", "enum", dict(capture=1.0), ["capture", "dynamic"], feats=DYN, n=150, cases=60),
    ],
    "C16": [
        P("plain", "enum", dict(), ["writes", "undo", "read", "agree"], n=600),
        P("mix", "enum", dict(MIX, vattrs=0.3), ["writes", "undo", "read", "agree"], n=400),
        P("slices", "enum", dict(MIX), ["slices", "slice_ops"], feats=DYN, n=150, cases=60),
    ],
    "C17": [
        P("structs", "struct", dict(MIX), ["slices", "slice_ops"], feats=DYN, n=450, cases=60),
        P("enums", "enum", dict(MIX), ["slices", "slice_ops"], feats=DYN, n=200, cases=60),
        P("reversed", "struct", dict(MIX, reverse=0.7, lsb0=0.5), ["slices", "slice_ops"], feats=DYN, n=250, cases=60),
        P("sweep", "sweep", dict(), ["slices", "slice_ops"], feats=DYN, n=200, cases=30),
    ],
    "C18": [
        P("structs", "struct", dict(MIX), ["dynamic", "stream"], feats=DYN, n=500, cases=80),
        P("enums", "enum", dict(MIX), ["dynamic", "stream"], feats=DYN, n=350, cases=80),
        P("sweep", "sweep", dict(), ["dynamic"], feats=DYN, n=200, cases=30),
    ],
    "C19": [
        P("dyn", "struct", dict(MIX), ["hexes"], feats=ALL, n=300, cases=200),
        P("enums", "enum", dict(MIX), ["hexes"], feats=ALL, n=150, cases=200),
        P("fixed", "struct", dict(MIX), ["hexes"], feats=HEX, n=300, cases=200),
        P("small", "struct", dict(maxbits=24, maxf=2), ["hexes"], feats=ALL, n=200, cases=600),
    ],
    "C20": [
        P("benum", "benum", dict(), [], n=2500),
    ],
    "C21": [
        P("prim", "struct", dict(prim=0.8), LAYOUT + ["writes", "roundtrip"], n=700),
        P("mix", "struct", dict(MIX, prim=0.5), LAYOUT + ["writes", "roundtrip", "agree"], n=250),
        P("enums", "enum", dict(prim=0.7), ["encode", "decode", "read", "writes", "roundtrip"], n=200),
        P("slices", "struct", dict(prim=0.7, arr=0.25), ["dynamic", "slices"], feats=DYN, n=100, cases=60),
    ],
    "C23": [
        P("eq", "enum", dict(MIX, maxf=3), ["ids"], n=600, cases=200),
        P("eqcap", "enum", dict(capture=1.0, maxf=3), ["ids"], n=300, cases=200),
        P("wide", "enum", dict(wide_only=True, maxf=3), ["ids"], feats=DYN, n=150, cases=200),
    ],
    "C24": [
        P("structs", "struct", dict(MIX, names=1, maxf=8, arr=0.3), NAMES, ALL, n=300, cases=60),
        P("enums", "enum", dict(MIX, names=1), NAMES + ["ids", "capture"], ALL, n=200, cases=60),
        P("bare", "struct", dict(MIX, names=1), ["roundtrip", "encode", "decode", "read", "writes"], n=100, cases=60),
        P("benum", "benum", dict(names=1), [], n=300),
    ],
}

# far larger ones of the same, for every property
for _pfs in PROFILES.values():
    for _kind in ("struct", "enum"):
        _pf = next((p for p in _pfs if p["kind"] == _kind and not p["opts"].get("wide_only") and p["tag"] != "small"), None)
        if _pf:
            _pfs.append(dict(_pf, tag="huge_" + _kind, kind="huge", main=_kind, n=12 if _kind == "struct" else 6, cases=12))


def glue(feats, defaults=True):
    """the parts of the API the generated programs use under these crate features"""
    return tuple(g for g, on in (("dyn", "dyn_fns" in feats), ("hex", "hex_fns" in feats), ("eq", defaults)) if on)
