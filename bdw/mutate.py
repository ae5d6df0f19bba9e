"""Single contradictions, put into otherwise valid declarations (C11, C12).

Every function takes a copy of an item and a random.Random, changes the copy's main declaration and
returns True, or returns False where the contradiction has no place in it."""
import copy
from model import field_bits, place, type_bits, layout, id_width


def groups(d):
    """(fields, first bit, variant or None)"""
    if d["k"] == "struct":
        return [(d["fields"], 0, None)]
    return [(v["fields"], d["attrs"]["id_bits"], v) for v in d["variants"] if not v.get("unit")]


def choose(d, r, ok):
    c = [(fs, s, v, i) for fs, s, v in groups(d) for i, f in enumerate(fs) if not f.get("capture") and ok(f)]
    return r.choice(c) if c else None


def scalar(f):
    return not f.get("arr")


def free(f):
    return f.get("at") is None and not f.get("redundant") and not f.get("overlap")


def raw(f, *xs):
    f.setdefault("raw", []).extend(xs)
    f["aorder"] = 0


def key(f, byte=None):
    m = (f.get("arr") or {}).get("mode")
    pre = {"el": "element_", "bl": "block_"}.get(m, "")
    return pre + ("byte_length" if (f.get("how") == "byte" if byte is None else byte) else "bit_length")


# ------------------------------------------------------------------ fields
def length_twice(d, r):
    c = choose(d, r, lambda f: f.get("len") is not None and f.get("how") in ("bit", "byte") and (scalar(f) or f["arr"]["mode"] == "el") and free(f))
    if not c:
        return False
    f = c[0][c[3]]
    n = f["len"]
    raw(f, r.choice([f"{key(f, False)} = {n}", f"{key(f, False)} = {max(1, n - 1)}", f"{key(f, True)} = {-(-n // 8)}"]))
    return True


def length_and_range(d, r):
    c = choose(d, r, lambda f: scalar(f) and f.get("at") is not None)
    if not c:
        return False
    f = c[0][c[3]]
    n = field_bits(f)
    raw(f, r.choice([f"bit_length = {n + 1}", f"bit_length = {n}", f"byte_length = {n // 8 + 1}"]))
    return True


def length_not_a_number(d, r):
    c = choose(d, r, lambda f: f.get("len") is not None and f.get("how") in ("bit", "byte") and free(f))
    if not c:
        return False
    f = c[0][c[3]]
    k, n = key(f), f["len"] if f["how"] == "bit" else f["len"] // 8
    f["how"] = "none"
    raw(f, f"{k} = " + r.choice([f'"{n}"', f"{n}.0", f"-{n}", "true", f"b'{n % 10}'"]))
    return True


def bad_range(d, r):
    c = choose(d, r, lambda f: scalar(f) and free(f) and f["t"]["k"] in ("u", "i", "bool", "char", "f"))
    if not c:
        return False
    fs, s, v, i = c
    f = fs[i]
    a, b = place(fs, s)[0][i]
    f["how"] = "none"
    f["len"] = None
    raw(f, "bits = " + r.choice([f"{b - a}", f'"{a}..={b - 1}"', f'"{b}..{a}"', f'"a..b"', f'"{a}"', f'"..{b}"', f'"{a}.."', f'"-1..{b}"', '""']))
    return True


def zero_length(d, r):
    c = choose(d, r, lambda f: free(f) and scalar(f) and f["t"]["k"] in ("u", "i", "char"))
    if not c:
        return False
    f = c[0][c[3]]
    f["len"], f["how"] = 0, r.choice(["bit", "byte"])
    return True


def float_not_full(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] == "f" and free(f))
    if not c:
        return False
    f = c[0][c[3]]
    w = f["t"]["w"]
    n = r.choice([w - 1, w // 2, 1, w - 8, w + 1])
    f["how"] = "bit"
    a = f.get("arr")
    if not a:
        f["len"] = n
    elif a["mode"] in ("none", "el"):
        a["mode"] = "el"
        f["len"] = n
    elif a["mode"] == "bl":
        f["len"] = a["n"] * w - r.randint(1, w - 1)
    else:
        f["len"] = a["n"] * min(n, w - 1)
    return True


def too_long(d, r):
    c = choose(d, r, lambda f: free(f) and f["t"]["k"] in ("u", "i", "char", "e", "s", "bool") and (f["t"]["k"] != "s" or f["t"].get("attr")))
    if not c:
        return False
    f = c[0][c[3]]
    w = type_bits(f["t"]) if f["t"]["k"] != "bool" else 8
    k = r.choice([1, 1, 2, 7, 8, 40])
    a = f.get("arr")
    f["how"] = "bit"
    if not a:
        f["len"] = w + k
    elif a["mode"] in ("none", "el"):
        a["mode"] = "el"
        f["len"] = w + k
    elif a["mode"] == "bl":
        f["len"] = a["n"] * w + k
    else:
        f["len"] = a["n"] * (w + k)
    return True


def word_size(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] in "ui")
    if not c:
        return False
    f = c[0][c[3]]
    t = "usize" if f["t"]["k"] == "u" else "isize"
    f["rty"] = f"[{t}; {f['arr']['n']}]" if f.get("arr") else t
    return True


def unknown_type(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] in ("u", "i", "bool", "char", "f") and free(f) and not f.get("endian"))
    if not c:
        return False
    f = c[0][c[3]]
    f["rty"] = r.choice(["String", "&'static u8", "(u8, u8)", "Vec<u8>", "Option<u8>", "[u8; 0]", "[String; 2]", "&'static str", "fn(u8) -> u8", "()"])
    f.update(how="none", len=None, arr=None)
    return True


def overlap(d, r):
    """a field lies on an earlier one without saying so"""
    c = []
    for fs, s, v in groups(d):
        for i, f in enumerate(fs):
            if scalar(f) and free(f) and f["t"]["k"] in ("u", "i", "bool", "char") and not f.get("capture"):
                for j in range(i):
                    if not fs[j].get("redundant") and not fs[j].get("overlap") and not fs[j].get("capture"):
                        c.append((fs, s, i, j))
    if not c:
        return False
    fs, s, i, j = r.choice(c)
    f = fs[i]
    n = field_bits(f)
    a, b = place(fs, s)[0][j]
    lo = max(s, a - n + 1)
    f.update(at=r.choice([lo, a, b - 1, r.randint(lo, b - 1)]), how="none", len=n)
    return True


def overlap_id(d, r):
    if d["k"] != "enum":
        return False
    c = choose(d, r, lambda f: scalar(f) and free(f) and f["t"]["k"] in ("u", "i", "bool", "char"))
    if not c:
        return False
    fs, s, v, i = c
    f = fs[i]
    n = field_bits(f)
    f.update(at=r.randint(0, s - 1), how="none", len=n)
    return True


def outside(d, r):
    """a field which does not add its bits to the size lies behind the last byte"""
    end = layout(d)["bytes"] * 8
    gs = [g for g in groups(d) if g[0]]
    if not gs:
        return False
    fs = r.choice(gs)[0]
    f = fs[-1]
    if r.random() < 0.5 and scalar(f) and free(f) and f["t"]["k"] in ("u", "i", "bool", "char", "f") and not f.get("capture"):
        n = field_bits(f)
        f.update(at=max(end - n + 1, 0) + r.choice([0, 0, 1, 7, 8, 40]), how="none", len=n)
        return True
    w = r.choice([8, 16, 32])
    n = r.randint(1, w)
    fs.append({"name": "far", "t": {"k": "u", "w": w}, "len": n, "how": "none", "at": end - r.choice([0, r.randint(0, n - 1)]), "redundant": True})
    return True


def overlapping_too_much(d, r):
    c = choose(d, r, lambda f: free(f) and scalar(f) and f["t"]["k"] in ("u", "i"))
    if not c:
        return False
    f = c[0][c[3]]
    raw(f, r.choice([f"overlapping_bits = {field_bits(f) + r.choice([1, 3, 8])}", f'overlapping_bits = "{field_bits(f)}"', "overlapping_bits = -1"]))
    return True


def array_not_divided(d, r):
    c = choose(d, r, lambda f: f.get("arr") and f["arr"]["mode"] in ("split", "el", "none") and f["arr"]["n"] > 1 and free(f) and f["t"]["k"] in ("u", "i", "char"))
    if not c:
        return False
    fs, s, v, i = c
    f = fs[i]
    w, N = type_bits(f["t"]), f["arr"]["n"]
    n = r.randint(1, w * N)
    if n % N == 0:
        n -= 1
    if n == 0:
        return False
    a = place(fs, s)[0][i][0]
    f["how"] = "none"
    raw(f, r.choice([f"bit_length = {n}", f'bits = "{a}..{a + n}"']))
    return True


def block_too_short(d, r):
    """a block array which has no bit left for at least one of its elements"""
    c = choose(d, r, lambda f: f.get("arr") and f["arr"]["mode"] in ("bl", "none") and f["arr"]["n"] > 1 and free(f) and f["t"]["k"] in ("u", "i", "char"))
    if not c:
        return False
    f = c[0][c[3]]
    w, N = type_bits(f["t"]), f["arr"]["n"]
    f["arr"]["mode"] = "bl"
    n = r.choice([w * (N - 1), r.randint(1, w * (N - 1)), w])
    f.update(len=n, how="byte" if n % 8 == 0 and r.random() < 0.5 else "bit")
    return True


def array_conflict(d, r):
    """a range or another array length which does not agree with the array's own"""
    c = choose(d, r, lambda f: f.get("arr") and f["arr"]["mode"] in ("bl", "el") and f["arr"]["n"] > 1 and free(f))
    if not c:
        return False
    fs, s, v, i = c
    f = fs[i]
    a, b = place(fs, s)[0][i]
    k = r.choice([1, 2, 8]) * f["arr"]["n"]
    if f["arr"]["mode"] == "bl":
        raw(f, r.choice([f'bits = "{a}..{b + k}"', f"block_bit_length = {b - a + 1}"]))
    else:
        raw(f, f'bits = "{a}..{b + k}"')
    return True


def array_length_on_scalar(d, r):
    c = choose(d, r, lambda f: free(f) and scalar(f) and f["t"]["k"] in ("u", "i", "bool", "char"))
    if not c:
        return False
    f = c[0][c[3]]
    n = field_bits(f)
    f.update(how="none")
    raw(f, r.choice([f"element_bit_length = {n}", f"block_bit_length = {n}", f"element_byte_length = 1", f"block_byte_length = 1"]))
    return True


def field_endianness(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] in ("u", "i", "char", "f") and not f.get("endian"))
    if not c:
        return False
    raw(c[0][c[3]], "endianness = " + r.choice(['"middle"', '"BE"', '"l"', '""', "5", "true", "'b'"]))
    return True


def default_endianness(d, r):
    at = d["attrs"]
    if at.get("endian"):
        return False
    at.setdefault("raw", []).append("default_endianness = " + r.choice(['"middle"', '"BE"', '"bigendian"', '""', "5", "true"]))
    return True


def read_from(d, r):
    at = d["attrs"]
    if at.get("read_from"):
        return False
    at.setdefault("raw", []).append("read_from = " + r.choice(['"lsb"', '"MSB0"', '"lsb1"', '""', "0", "true"]))
    return True


def primitive(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] == "e")
    if not c:
        return False
    raw(c[0][c[3]], "enum_primitive = " + r.choice(['"i8"', '"u7"', '"bool"', '"char"', '"usize"', "8", '""']))
    return True


def wrong_primitive(d, r):
    """a primitive the enum does not convert to"""
    c = choose(d, r, lambda f: f["t"]["k"] == "e")
    if not c:
        return False
    f = c[0][c[3]]
    f["t"] = dict(f["t"], w=r.choice([w for w in (8, 16, 32, 64, 128) if w != f["t"]["w"]]))
    return True


def struct_size(d, r):
    c = choose(d, r, lambda f: f["t"]["k"] == "s" and f["t"].get("attr"))
    if not c:
        return False
    f = c[0][c[3]]
    b = f["t"]["bytes"]
    f["t"] = dict(f["t"], attr=False)
    raw(f, "struct_size = " + r.choice([f'"{b}"', f"{b}.0", f"{b + 1}", f"{max(1, b - 1)}" if b > 1 else f"{b + 2}", "-1"]))
    f["raw"] = f["raw"][-1:] + f["raw"][:-1]
    return True


def unknown_attribute(d, r):
    c = choose(d, r, lambda f: True)
    if not c:
        return False
    raw(c[0][c[3]], r.choice(["bit_lenght = 3", "offset = 1", 'bit = "0..1"', 'endian = "be"', "size = 4"]))
    return True


def redundant_value(d, r):
    c = choose(d, r, lambda f: not f.get("redundant") and not f.get("overlap"))
    if not c:
        return False
    raw(c[0][c[3]], r.choice(["redundant = 3", "reserve = true", "read_only = 1", 'capture_id = "u8"']))
    return True


# ------------------------------------------------------------------ capture_id
def capture_in_struct(d, r):
    if d["k"] != "struct":
        return False
    d["fields"].insert(0, {"name": "cid", "t": {"k": "u", "w": 8}, "len": None, "how": "none", "raw": ["capture_id"]})
    return True


def capture_bad(d, r):
    if d["k"] != "enum":
        return False
    vs = [v for v in d["variants"] if not v.get("unit") and not any(f.get("capture") or f.get("at") is not None for f in v["fields"])]
    if not vs:
        return False
    v = r.choice(vs)
    w = id_width(d["attrs"]["id_bits"])
    mk = lambda t, n="cid": {"name": n, "t": t, "len": None, "how": "none", "raw": ["capture_id"]}
    k = r.choice(["signed", "width", "bool", "late", "twice", "array"])
    if k == "signed":
        v["fields"].insert(0, mk({"k": "i", "w": w}))
    elif k == "width":
        v["fields"].insert(0, mk({"k": "u", "w": r.choice([x for x in (8, 16, 32, 64, 128) if x != w])}))
    elif k == "bool":
        v["fields"].insert(0, mk({"k": r.choice(["bool", "char"])}))
    elif k == "array":
        v["fields"].insert(0, dict(mk({"k": "u", "w": 8}), rty="[u8; 1]"))
    elif k == "late":
        if not v["fields"]:
            return False
        v["fields"].insert(r.randint(1, len(v["fields"])), mk({"k": "u", "w": w}))
    else:
        v["fields"].insert(0, mk({"k": "u", "w": w}))
        v["fields"].insert(1, mk({"k": "u", "w": w}, "cid2"))
    return True


# ------------------------------------------------------------------ enums
def attr_ids(d):
    for v in d["variants"]:
        if v.get("id") is not None:
            v["id_how"] = "attr"


def id_twice(d, r):
    if d["k"] != "enum" or len(d["variants"]) < 2:
        return False
    a, b = r.sample(d["variants"], 2)
    x = a.get("id") if a.get("id") is not None else r.randint(0, 2 ** d["attrs"]["id_bits"] - 1)
    attr_ids(d)
    for v in (a, b):
        v["id"], v["id_how"] = x, "attr"
    return True


def id_too_big(d, r):
    if d["k"] != "enum" or d["attrs"]["id_bits"] > 120:
        return False
    attr_ids(d)
    v = r.choice(d["variants"])
    n = d["attrs"]["id_bits"]
    v["id"], v["id_how"] = r.choice([2 ** n, 2 ** n + 1, 2 ** (n + 1) - 1, 2 ** n + 2 ** (n - 1)]), "attr"
    return True


def two_ids(d, r):
    if d["k"] != "enum":
        return False
    attr_ids(d)
    v = r.choice(d["variants"])
    x = v.get("id") if v.get("id") is not None else layout(d)["ids"][d["variants"].index(v)]
    v["id"], v["id_how"] = x, "attr"
    v.setdefault("raw", []).append(f"variant_id = {r.choice([x, x + 1])}")
    return True


def id_not_a_number(d, r):
    if d["k"] != "enum":
        return False
    attr_ids(d)
    v = r.choice(d["variants"])
    x = v.pop("id", 0)
    v.setdefault("raw", []).append("variant_id = " + r.choice([f'"{x}"', f"{x}.0", "true", "-1"]))
    return True


def too_few_id_bits(d, r):
    if d["k"] != "enum" or len(d["variants"]) < 3 or any(f.get("capture") for v in d["variants"] for f in v["fields"]):
        return False
    at = d["attrs"]
    n = (len(d["variants"]) - 1).bit_length() - 1
    at["id_bits"], at["id_how"] = n, "bit"
    for k in ("payload", "enf_bits", "enf_bytes"):
        at.pop(k, None)
    for v in d["variants"]:
        v.pop("enf_bits", None)
    return n > 0


def no_id_length(d, r):
    if d["k"] != "enum":
        return False
    at = d["attrs"]
    for k in ("payload", "enf_bits", "enf_bytes"):
        at.pop(k, None)
    at["id_how"] = "none"
    return True


def bad_id_length(d, r):
    if d["k"] != "enum":
        return False
    at = d["attrs"]
    no_id_length(d, r)
    bad = r.choice(["id_bit_length = 0", "id_bit_length = 129", "id_byte_length = 17", 'id_bit_length = "3"', "id_bit_length = 200", "id_byte_length = 0"])
    if bad.endswith(" 0") and r.random() < 0.7:
        # one variant of id 0 needs no bits to be told apart
        d["variants"] = [v for v in d["variants"] if v["fields"]][:1] or d["variants"][:1]
        d["variants"][0].pop("id", None)
        d["variants"][0].pop("id_how", None)
    at.setdefault("raw", []).append(bad)
    return True


def two_catch_alls(d, r):
    if d["k"] != "enum" or len(d["variants"]) < 2:
        return False
    for v in r.sample(d["variants"], 2):
        v["invalid"] = True
    return sum(1 for v in d["variants"] if v.get("invalid")) >= 2


def payload_too_small(d, r):
    if d["k"] != "enum" or d["attrs"].get("fill") is not None or any(v.get("fill") for v in d["variants"]):
        return False
    at = d["attrs"]
    lay = layout(d)
    n = lay["bits"] - at["id_bits"]
    for k in ("payload", "enf_bits", "enf_bytes"):
        at.pop(k, None)
    if n < 2:
        return False
    at["payload"] = r.choice([n - 1, r.randint(1, n - 1)])
    return True


def sizes_disagree(d, r):
    """id, payload and the whole do not add up"""
    if not payload_too_small(d, r):
        return False
    at = d["attrs"]
    lay = layout(d)
    at["payload"] = lay["bits"] - at["id_bits"]
    at["enf_bits"] = lay["bits"] + r.choice([1, 2, 8])
    return True


def empty_enum(d, r):
    if d["k"] != "enum":
        return False
    d["variants"] = []
    return True


# ------------------------------------------------------------------ whole
def unit_or_union(d, r):
    if d["k"] != "struct":
        return False
    d["text"] = r.choice(["#[derive(Bitfields, Clone, Debug, PartialEq)]\npub struct S;\n",
                          "#[derive(Bitfields, Clone, Debug, PartialEq)]\n#[bondrewd(default_endianness = \"be\")]\npub struct S;\n",
                          "#[derive(Bitfields, Clone, Copy)]\npub union S { pub a: u8, pub b: i8 }\n"])
    return True


def fill_too_small(d, r):
    if d["k"] != "struct":
        return False
    used = layout(d)["used"]
    full = -(-used // 8)
    if full < 2:
        return False
    d["attrs"]["fill"] = r.choice([full - 1, r.randint(0, full - 1)])
    return True


def fill_bad(d, r):
    if d["k"] != "struct":
        return False
    at = d["attrs"]
    n = at.pop("fill", None) or -(-layout(d)["used"] // 8)
    at.setdefault("raw", []).extend(r.choice([[f'fill_bytes = "{n}"'], [f"fill_bytes = {n}.5"], [f"fill_bytes = {n}", f"fill_bytes = {n}"], [f"fill_bytes = {n}", f"fill_bytes = {n + 1}"]]))
    return True


def enforcement_not_a_number(d, r):
    at = d["attrs"]
    at.setdefault("raw", []).append(r.choice(["enforce_bits", "enforce_bytes"]) + " = " + r.choice(['"8"', "1.0", "true", "-1"]))
    return True


# ------------------------------------------------------------------ primitive enums
def benum_text(d, r):
    k = r.choice(["dup", "two caps", "cap type", "two fields", "attr", "two marks", "mark and cap", "struct", "empty", "too big", "too many"])
    vs = d["variants"]
    plain = [v for v in vs if not v.get("cap")]
    if k == "dup":
        if len(plain) < 2:
            return False
        a, b = r.sample(plain, 2)
        if any(v.get("cap") for v in vs):
            return False
        a["id"] = b["id"] = a.get("id") if a.get("id") is not None else r.randint(0, 255)
    elif k == "two caps":
        for i in range(2 - sum(1 for v in vs if v.get("cap"))):
            vs.append({"name": f"Cap{i}", "cap": r.choice(["tuple", "named"])})
        for v in vs:
            v.pop("mark", None)
    elif k == "cap type":
        if any(v.get("cap") or v.get("mark") for v in vs):
            return False
        vs.append({"name": "Cap", "cap": "tuple", "rfields": r.choice(["(u16)", "(i8)", "(bool)", "{ inner: u32 }", "(&'static u8)", "(usize)"])})
    elif k == "two fields":
        if any(v.get("cap") or v.get("mark") for v in vs):
            return False
        vs.append({"name": "Cap", "cap": "tuple", "rfields": r.choice(["(u8, u8)", "{ a: u8, b: u8 }", "()", "{}"])})
    elif k == "attr":
        d["raw"] = [r.choice(["u16", "i8", "partial_ord", "u128"])]
        d["attr_prim"] = d["partial_eq"] = False
    elif k == "two marks":
        if len(plain) < 2 or any(v.get("cap") for v in vs):
            return False
        for v in vs:
            v.pop("mark", None)
        for v in r.sample(plain, 2):
            v["mark"] = True
    elif k == "mark and cap":
        caps = [v for v in vs if v.get("cap")]
        if not caps or not plain:
            return False
        r.choice(plain)["mark"] = True
    elif k == "too big":
        if any(v.get("cap") for v in vs):
            return False
        r.choice(vs)["id"] = r.choice([256, 257, 300, 511, 512, 65535, 65536 + r.randint(0, 255)])
    elif k == "too many":
        if any(v.get("cap") for v in vs):
            return False
        vs.extend({"name": f"W{i}"} for i in range(len(vs), 257 + r.choice([0, 0, 1, 50])))
    elif k == "struct":
        d["text"] = r.choice(["#[derive(BitfieldEnum, Clone, Debug, PartialEq)]\npub struct P { pub a: u8 }\n", "#[derive(BitfieldEnum, Clone, Debug, PartialEq)]\npub struct P;\n"])
    else:
        d["variants"] = []
        d["text"] = "#[derive(BitfieldEnum, Clone, Debug, PartialEq)]\npub enum P {}\n"
    return True


# ------------------------------------------------------------------ enforcement (C11)
def variant_totals(d):
    return [place(v["fields"], d["attrs"]["id_bits"])[1] for v in d["variants"]]


def drop_enforcement(d):
    for k in ("enf_bits", "enf_bytes", "enf_full", "payload"):
        d["attrs"].pop(k, None)
    for v in d.get("variants", []):
        v.pop("enf_bits", None)


def enforce_bits(d, r):
    drop_enforcement(d)
    if d["k"] == "struct":
        used = layout(d)["used"]
        n = r.choice([used - 1, used + 1, used + 8, used + (-used % 8), layout(d)["bits"]] + ([used - 8] if used > 8 else []))
        if n == used or n < 0:
            n = used + 1
        d["attrs"]["enf_bits"] = n
    else:
        v = r.choice(d["variants"])
        used = variant_totals(d)[d["variants"].index(v)]
        v["enf_bits"] = r.choice([used + 1, used - 1, used + 8])
    return True


def enforce_bytes(d, r):
    drop_enforcement(d)
    if d["k"] != "struct":
        return False
    lay = layout(d)
    used = lay["used"]
    d["attrs"]["enf_bytes"] = n = r.choice([lay["bytes"], -(-used // 8) + r.choice([0, 1]), used // 8])
    return n * 8 != used


def enforce_full(d, r):
    drop_enforcement(d)
    if d["k"] != "struct" or layout(d)["used"] % 8 == 0:
        return False
    d["attrs"]["enf_full"] = True
    return True


def enforce_enum(d, r):
    if d["k"] != "enum":
        return False
    drop_enforcement(d)
    n = max(variant_totals(d))
    if n - d["attrs"]["id_bits"] < 1:
        return False
    d["attrs"]["enf_bits"] = n - r.choice([1, 1, min(8, n - d["attrs"]["id_bits"])])
    return True


FIELDS = [outside, length_twice, length_and_range, length_not_a_number, bad_range, zero_length, float_not_full, too_long, word_size, unknown_type,
          overlap, overlap_id, overlapping_too_much, array_not_divided, block_too_short, array_conflict, array_length_on_scalar, field_endianness,
          default_endianness, read_from, primitive, wrong_primitive, struct_size, unknown_attribute, redundant_value, capture_in_struct, capture_bad,
          id_twice, id_too_big, two_ids, id_not_a_number, too_few_id_bits, no_id_length, bad_id_length, two_catch_alls, payload_too_small, sizes_disagree, empty_enum,
          unit_or_union, fill_too_small, fill_bad, enforcement_not_a_number]
ENFORCE = [enforce_bits, enforce_bytes, enforce_full, enforce_enum, fill_too_small]
BENUM = [benum_text]
BY_NAME = {f.__name__: f for f in FIELDS + ENFORCE + BENUM}


def apply(name, item, r):
    """a copy of the item with the contradiction, or None"""
    c = copy.deepcopy(item)
    d = c["decls"][-1]
    if d["k"] == "benum" and name != "benum_text":
        return None
    if d["k"] != "benum" and name == "benum_text":
        return None
    if not BY_NAME[name](d, r):
        return None
    return c
