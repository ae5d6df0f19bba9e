"""Random declarations, as plain dicts.  Every generator takes a random.Random and an option dict."""
from model import layout, type_bits, field_bits, place, benum_layout, id_width
from math import ceil

BE = ["be", "be", "be", "msb", "big"]
LE = ["le", "le", "le", "lsb", "little", "lil"]


def pick(r, pairs):
    tot = sum(w for _, w in pairs)
    x = r.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


DEFAULT = {
    "kinds": [("u", 8), ("i", 8), ("bool", 2), ("char", 1), ("f", 2)],
    "nest": 0.0,        # chance of a nested field
    "prim": 0.0,        # chance of a primitive enum field
    "arr": 0.2,         # chance of an array
    "small_multi": True,  # multi byte types with less than 9 bits
    "endian": [("be", 5), ("le", 5), (None, 1)],
    "fendian": 0.2,     # chance of a per field endianness
    "reverse": 0.15,
    "lsb0": 0.15,
    "fill": 0.1,
    "special": 0.0,     # reserve, read_only, redundant, overlap
    "perm": 0.05,       # bits = ranges in permuted order
    "bits": 0.1,        # bits = for a single field
    "maxf": 6,
    "maxbits": 400,
    "tuple": 0.0,
    "big": 0.03,        # many fields
    "vattrs": 0.1,      # attributes of single variants
    "enforce": 0.1,
    "many": 0.02,       # enums with very many variants
    "names": 0.06,      # chance of field names like keywords or like other fields with a suffix, and of a Result in scope
    "fends": ["be", "le"],
    "size": None,       # "fields", "arrays" or "fill": far more of them than anybody writes by hand
    "widths": [(8, 5), (16, 5), (32, 5), (64, 4), (128, 2)],
}


def opts(**kw):
    o = dict(DEFAULT)
    o.update(kw)
    return o


NAMES = ["a", "b", "c", "d", "e", "g", "h", "k", "one", "two", "flags", "speed_x", "len", "buffer", "x1", "data", "id2", "value", "f_1", "long_name_2", "w", "z"]


def gen_len(r, w, o):
    """bits of an integer of width w"""
    c = r.random()
    lo = 1 if (w == 8 or o["small_multi"]) else 9
    if c < 0.15:
        return w
    if c < 0.6:
        return r.randint(lo, w)
    if c < 0.8:
        return max(lo, min(w, 8 * r.randint(1, w // 8) + r.choice([-1, 0, 0, 1])))
    return r.randint(lo, min(w, 24))


def reach(d, lay):
    """how many leading bits of the encoding can be anything but zero"""
    if d["k"] == "struct":
        pos = [p for g in lay["fields"] for l in g for p in l]
    else:
        pos = lay["id_pos"] + [p for v in lay["variants"] for g in v["fields"] for l in g for p in l]
    return max(pos) + 1


def gen_scalar(r, o, items):
    """(type, len or None)"""
    if items and items.get("nested") and r.random() < o["nest"]:
        d = r.choice(items["nested"])
        lay = layout(d)
        t = {"k": "s", "ref": d["name"], "bytes": lay["bytes"]}
        if d.get("plain"):
            t["plain"] = True
        least = max(lay["bits"], reach(d, lay))
        n = r.randint(least, lay["bytes"] * 8) if r.random() < 0.7 else lay["bytes"] * 8
        if r.random() < 0.2:
            # also bits which the inner declaration uses are cut off
            t["attr"] = True
            return t, r.randint(1, n)
        if r.random() < 0.5:
            t["attr"] = True
            if n == lay["bytes"] * 8 and r.random() < 0.5:
                return t, None
        return t, n
    if items and items.get("benums") and r.random() < o["prim"]:
        d = r.choice(items["benums"])
        w = d["w"]
        need = max([1] + [x.bit_length() for v, x in zip(d["variants"], benum_layout(d)["values"]) if not v.get("cap")])
        t = {"k": "e", "ref": d["name"], "w": w}
        if r.random() < 0.3:
            return t, None
        return t, r.randint(need, w)
    k = pick(r, o["kinds"])
    if k in "ui":
        w = pick(r, o["widths"])
        t = {"k": k, "w": w}
        if r.random() < 0.15:
            return t, None
        return t, gen_len(r, w, o)
    if k == "bool":
        return {"k": "bool"}, (1 if r.random() < 0.3 else None)
    if k == "char":
        t = {"k": "char"}
        c = r.random()
        if c < 0.4:
            return t, None
        return t, (32 if c < 0.5 else r.randint(1 if o["small_multi"] else 9, 32))
    w = r.choice([32, 32, 64])
    return {"k": "f", "w": w}, (w if r.random() < 0.2 else None)


def gen_field(r, o, items, name):
    t, n = gen_scalar(r, o, items)
    f = {"name": name, "t": t, "len": n, "how": "bit"}
    if r.random() < o["arr"]:
        N = r.choice([1, 2, 2, 3, 3, 4, 5, 7]) if r.random() < 0.96 else r.choice([8, 9, 15, 16, 17, 31, 32, 33, 40])
        mode = r.random()
        if n is None and mode < 0.5:
            f["arr"] = {"mode": "none", "n": N}
            if t["k"] in "se":
                # struct_size or enum_primitive without a length is a block array of full size
                f["arr"] = {"mode": "el", "n": N}
                f["len"] = type_bits(t)
        elif t["k"] != "bool" and mode < 0.8 and mode > 0.5:
            w = type_bits(t)
            f["arr"] = {"mode": "bl", "n": N}
            first = w if r.random() < 0.3 or t["k"] == "f" else r.randint(1 if (w == 8 or o["small_multi"]) else 9, w)
            if t["k"] == "s":
                t["attr"] = True
            if t["k"] == "e":
                # n is enough for every variant's value
                first = w if n is None else r.randint(n, w)
            f["len"] = (N - 1) * w + first
        else:
            f["arr"] = {"mode": "el", "n": N}
            if n is None:
                f["len"] = type_bits(t)
            if t["k"] == "s" and r.random() < 0.8:
                t["attr"] = True
            if r.random() < 0.25 and t["k"] != "e" and not t.get("attr"):
                # a length for all elements together
                f["arr"]["mode"] = "split"
                f["len"] *= N
    if f["len"] is not None and f["len"] % 8 == 0 and r.random() < 0.4:
        f["how"] = "byte"
    if t["k"] not in ("s", "bool") and r.random() < o["fendian"]:
        f["endian"] = r.choice(o["fends"])
        f["ealias"] = r.choice(BE if f["endian"] == "be" else LE)
    if r.random() < 0.15:
        f["split"] = True
    if r.random() < 0.15:
        f["aorder"] = 1
    if r.random() < 0.05:
        f["doc"] = True
    if r.random() < 0.1:
        f["sp"] = r.choice(SPELLED)
    return f


def gen_fields(r, o, items, budget, count, start=0):
    names = list(NAMES)
    r.shuffle(names)
    names += [f"q{i}" for i in range(count - len(names))]
    fields = []
    used = start
    for i in range(count):
        f = gen_field(r, o, items, names[i])
        n = field_bits(f)
        if used + n > budget:
            # something small instead
            left = budget - used
            if left <= 0:
                break
            w = min(8, left)
            f = {"name": names[i], "t": {"k": "u", "w": 8}, "len": r.randint(1, w), "how": "bit"}
            n = f["len"]
        fields.append(f)
        used += n
    return fields


SPELLED = "xbo_"


def set_attrs(r, o):
    at = {}
    e = pick(r, o["endian"])
    if e:
        at["endian"] = e
        at["ealias"] = r.choice(BE if e == "be" else LE)
    if r.random() < o["reverse"]:
        at["reverse"] = True
    if r.random() < o["lsb0"]:
        at["read_from"] = "lsb0"
    elif r.random() < 0.05:
        at["read_from"] = "msb0"
    if r.random() < 0.3:
        at["order"] = r.randint(0, 999)
    if r.random() < 0.15:
        at["split"] = True
    if r.random() < 0.1:
        at["sp"] = r.choice(SPELLED)
    return at


def specials(r, o, fields, start=0):
    """reserve, read_only, redundant and overlapping fields"""
    for f in fields:
        x = r.random()
        if x < o["special"] * 0.35:
            if f["t"]["k"] in ("s", "e") or (f.get("arr") and f["arr"]["n"] > 30):
                continue
            f["reserve"] = True
        elif x < o["special"] * 0.6:
            f["read_only"] = True
    if r.random() < o["special"]:
        # a redundant field which shares bits
        spans, total = place(fields, start)
        for _ in range(r.randint(1, 2)):
            f = gen_field(r, opts(arr=o["arr"], kinds=o["kinds"], small_multi=o["small_multi"], widths=o["widths"], fendian=o["fendian"]), None,
                          f"red{len(fields)}")
            n = field_bits(f)
            if n > total - start:
                f = {"name": f["name"], "t": {"k": "u", "w": 8}, "len": r.randint(1, min(8, total - start)), "how": "bit"}
                n = f["len"]
            f["redundant"] = True
            if r.random() < 0.3:
                f["spelled"] = True
            if r.random() < 0.5:
                # placed on the following fields
                cut = [i for i in range(len(fields)) if not any(g.get("at") is not None for g in fields)
                       and (place(fields[:i], start)[1] if i else start) + n <= total and not any(g.get("redundant") for g in fields[:i])]
                if not cut:
                    continue
                fields.insert(r.choice(cut), f)
            else:
                f["at"] = r.randint(start, total - n)
                if f.get("arr") and f["arr"]["mode"] == "none":
                    f["arr"]["mode"] = "el"
                    f["len"] = type_bits(f["t"])
                if not f.get("arr") or f["arr"]["mode"] == "split":
                    # bits gives the length already
                    f["how"] = "none"
                    if f["len"] is None:
                        f["len"] = n
                fields.append(f)
                spans, total = place(fields, start)
    if r.random() < o["special"] * 0.3 and fields and not any(f.get("redundant") for f in fields):
        # read_only and only its first bits are shared
        spans, total = place(fields, start)
        n = r.randint(2, 40)
        k = r.randint(1, min(n - 1, total - start))
        w = min(x for x in (8, 16, 32, 64) if x >= n)
        fields.append({"name": f"ovl{len(fields)}", "t": {"k": r.choice("ui"), "w": w}, "len": n, "how": "none",
                       "at": total - k, "overlap": k, "read_only": True})


def use_bits(r, o, fields):
    """give fields their place explicitly"""
    spans, total = place(fields)
    if r.random() < o["perm"] and len(fields) > 1 and not any(f.get("redundant") or f.get("overlap") for f in fields):
        order = list(range(len(fields)))
        r.shuffle(order)
        # fields in new order keep their place
        new = [fields[i] for i in order]
        for i, f in zip(order, new):
            explicit(f, spans[i][0])
        fields[:] = new
        return
    for f, (s, e) in zip(fields, spans):
        if r.random() < o["bits"] and f.get("at") is None:
            explicit(f, s)


def explicit(f, s):
    n = field_bits(f)
    f["at"] = s
    if f.get("arr"):
        if f["arr"]["mode"] == "none":
            f["arr"]["mode"] = "el"
            f["len"] = type_bits(f["t"])
        if f["arr"]["mode"] == "split":
            f["how"] = "none"
        return
    f["how"] = "none"
    f["len"] = n


def gen_struct(r, o, name="S", items=None):
    count = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6][: o["maxf"] + 3])
    budget = o["maxbits"] if r.random() < 0.8 else r.randint(8, 64)
    if r.random() < o["big"]:
        budget, count = 4000, r.choice([8, 12, 16])
    if items and any(x.get("plain") for x in items["nested"]) and r.random() < 0.7:
        budget = max(budget, 2000)
    if o["size"] == "fields":
        budget, count = 40000, r.choice([33, 65, 130, 257, 300])
    fields = gen_fields(r, o, items, budget, count)
    if o["size"] == "arrays":
        long_arrays(r, o, fields, 80000)
    if budget == 4000 and r.random() < 0.3:
        # beyond what a byte can count
        fields.insert(r.randint(0, len(fields)), {"name": "many", "t": {"k": "u", "w": 8}, "len": r.choice([7, 8, 8]), "how": "bit",
                                                  "arr": {"mode": "el", "n": r.choice([180, 256, 300])}})
    d = {"k": "struct", "name": name, "attrs": set_attrs(r, o), "fields": fields}
    if r.random() < o["tuple"]:
        d["tuple"] = True
    if o["special"]:
        specials(r, o, fields)
    use_bits(r, o, fields)
    at = d["attrs"]
    used = layout(d)["used"]
    if r.random() < o["fill"]:
        at["fill"] = ceil(used / 8) + r.choice([0, 1, 1, 2, 3])
    if o["size"] == "fill":
        at["fill"] = ceil(used / 8) + r.choice([32, 100, 200, 255, 256, 257, 300, 1000])
    if r.random() < o["enforce"]:
        c = r.random()
        if c < 0.5:
            at["enf_bits"] = used
        elif used % 8 == 0:
            at["enf_bytes" if c < 0.75 else "enf_full"] = used // 8 if c < 0.75 else True
    return d


def long_arrays(r, o, fields, most):
    """puts arrays of hundreds of elements between the fields"""
    for i in range(r.choice([1, 1, 2, 3])):
        f = gen_field(r, opts(**{k: o[k] for k in ("kinds", "widths", "fendian", "fends", "small_multi")}, arr=1), None, f"many{i}")
        a = f["arr"]
        total, n = field_bits(f), r.choice([60, 129, 255, 256, 257, 300, 500, 600])
        if a["mode"] == "bl":
            w = type_bits(f["t"])
            f["len"] += w * (n - a["n"])
        elif a["mode"] == "split":
            f["len"] = f["len"] // a["n"] * n
        a["n"] = n
        if f["len"] is not None and f["len"] % 8:
            f["how"] = "bit"
        if field_bits(f) <= most:
            most -= field_bits(f)
            fields.insert(r.randint(1 if fields and fields[0].get("capture") else 0, len(fields)), f)


def huge(r, o, kind, i):
    """declarations larger than the others"""
    size = ("arrays", "fields", "fill", "arrays")[i % 4]
    if kind == "enum" and size == "fill":
        size = "arrays"
    return gen_item(r, dict(o, size=size, names=0, enforce=0.3, nest=min(o["nest"], 0.05)), kind)


def sweep(r, o, n):
    """n structs which together hold every (type, bits, offset within a byte), each before any comes twice"""
    kinds = dict(o["kinds"])

    def every():
        combos = {}
        for off in range(8):
            c = [({"k": k, "w": w}, b) for k in "ui" if k in kinds for w in (8, 16, 32, 64, 128) for b in range(1, w + 1)]
            if "char" in kinds:
                c += [({"k": "char"}, b) for b in range(1, 33)]
            if "f" in kinds:
                c += [({"k": "f", "w": w}, w) for w in (32, 64)]
            r.shuffle(c)
            combos[off] = c
        return combos
    combos = every()
    done = False
    out = []
    for _ in range(n):
        fields = []
        p = 0
        if not any(combos.values()):
            combos = every()
            done = True
        # a start which still has something to offer
        start = max(range(8), key=lambda k: len(combos[k]))
        if len(combos[0]) < len(combos[start]):
            fields.append({"name": "lead", "t": {"k": "u", "w": 8}, "len": start, "how": "bit"})
            p = start
        names = list(NAMES)
        r.shuffle(names)
        for name in names[:8]:
            c = combos[p % 8]
            t, b = c.pop() if c else ({"k": "u", "w": 8}, r.randint(1, 8))
            f = {"name": name, "t": dict(t), "len": b, "how": "bit"}
            if r.random() < o["fendian"]:
                f["endian"] = r.choice(o["fends"])
                f["ealias"] = f["endian"]
            fields.append(f)
            p += b
        out.append({"decls": [{"k": "struct", "name": "S", "attrs": set_attrs(r, o), "fields": fields}]})
    return out, 0 if done else sum(len(c) for c in combos.values())


VNAMES = ["Va", "Vb", "Vc", "Vd", "Ve", "FooBar", "Idle", "Get", "SetAll", "Unknown"]


def gen_enum(r, o, name="E", items=None, capture=0.3, maxbits=200):
    nv = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    names = list(VNAMES)
    r.shuffle(names)
    many = r.random() < o["many"]
    if many:
        nv = r.choice([11, 17, 30, 70, 140, 257])
        names += ["W" + chr(97 + i // 26) + chr(97 + i % 26) for i in range(nv)]
    at = set_attrs(r, o)
    idb = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 12, 16, 16]) if r.random() < 0.75 and not o.get("wide_only") else (
        r.choice([17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 77, 100, 127, 128]) if r.random() < 0.6 else r.randint(1, 128))
    while (1 << idb) < nv:
        idb += 1
    variants = []
    top = (1 << idb) - 1
    ids = set()
    for i in range(nv):
        v = {"name": names[i], "fields": []}
        c = r.random()
        if c < (0.93 if many else 0.25):
            v["unit"] = True
        else:
            if c < 0.45:
                v["tuple"] = True
            v["fields"] = gen_fields(r, o, items, r.choice([maxbits, 64, 30]) + idb, r.choice([1, 1, 2, 3, 4]), idb)
            if o["size"] and len(variants) < 3:
                if o["size"] == "arrays":
                    long_arrays(r, o, v["fields"], 12000)
                else:
                    v["fields"] = gen_fields(r, o, items, 12000, r.choice([33, 65, 130]), idb)
            if o["special"]:
                specials(r, o, v["fields"], idb)
        variants.append(v)
    explicit = r.random()
    for v in variants:
        if r.random() < 0.1:
            v["sp"] = r.choice(SPELLED)
        if explicit < 0.5 and r.random() < 0.7 or explicit > 0.85:
            x = r.choice([r.randint(0, min(top, 8)), r.randint(0, top), top])
            if x in ids:
                continue
            v["id"] = x
            ids.add(x)
            v["id_how"] = "attr" if r.random() < 0.5 else "disc"
    for v in variants:
        if v.get("id") is not None and v["id"] >= 2 ** 31:
            v["id_how"] = "attr"
    if r.random() < 0.4:
        r.choice(variants)["invalid"] = True
    cat = [v for v in variants if v.get("invalid")] or [variants[-1]]
    if r.random() < capture:
        v = cat[0]
        cap = {"name": "cid", "t": {"k": "u", "w": id_width(idb)}, "len": None, "how": "bit", "capture": True}
        if v.get("unit"):
            v["unit"] = False
            v["fields"] = []
            if r.random() < 0.5:
                v["tuple"] = True
        v["fields"].insert(0, cap)
        if not v.get("id") is None and v["id_how"] == "disc":
            for w in variants:
                if w.get("id") is not None:
                    w["id_how"] = "attr"
    d = {"k": "enum", "name": name, "attrs": at, "variants": variants}
    at["id_bits"] = idb
    if idb % 8 == 0 and r.random() < 0.5:
        at["id_how"] = "byte"
    for v in variants:
        use_bits_variant(r, o, v, idb)
        used = place(v["fields"], idb)[1]
        if r.random() < o["vattrs"]:
            v["endian"] = r.choice(["be", "le"])
        if r.random() < o["vattrs"] * 0.3:
            v["fill"] = ceil(used / 8) + r.choice([0, 1, 2])
        if r.random() < o["vattrs"] * 0.3:
            v["enf_bits"] = used
    lay = layout(d)
    ids = lay["ids"]
    while max(ids) > top:
        # an unassigned id ran over
        for v in variants:
            v.pop("id", None)
        lay = layout(d)
        ids = lay["ids"]
    # discriminants need an enum of units, and must not clash with those the language makes up
    if not all(v.get("unit") for v in variants) or not legal_discriminants(
            [{"id": v["id"] if v.get("id_how") == "disc" else None} if v.get("id") is not None else {} for v in variants], 63):
        for v in variants:
            if v.get("id") is not None:
                v["id_how"] = "attr"
    if r.random() < o["enforce"] * 2 and not any(v.get("fill") for v in variants):
        c = r.random()
        if c < 0.4:
            at["enf_bits"] = lay["bits"]
        elif c < 0.6 and lay["bits"] % 8 == 0:
            at["enf_bytes"] = lay["bits"] // 8
        else:
            at["payload"] = lay["bits"] - idb
            if r.random() < 0.5:
                at["payload_how"] = "byte"
            if r.random() < 0.4:
                at["enf_bits"] = lay["bits"]
    return d


def use_bits_variant(r, o, v, idb):
    fs = [f for f in v["fields"] if not f.get("capture")]
    if not fs or r.random() >= o["bits"]:
        return
    spans, _ = place(v["fields"], idb)
    for f, (s, e) in zip(v["fields"], spans):
        if not f.get("capture"):
            explicit(f, s)


def gen_benum(r, name="P", manual=False):
    w = r.choice([8, 8, 16, 32, 64, 128]) if manual else 8
    while True:
        n = r.choice([1, 2, 3, 4, 5, 6, 9]) if r.random() < 0.97 or manual else r.choice([17, 64, 128, 200, 255, 256, 256])
        top = 2 ** w - 1
        vs = []
        lim = r.choice([7, 15, 31, 255])
        p = r.choice([0.0, 0.15, 0.4, 0.8])
        for i in range(n):
            v = {"name": f"X{i}"}
            if r.random() < 0.1:
                v["sp"] = r.choice(SPELLED)
            if r.random() < p:
                v["id"] = min(top, r.choice([r.randint(0, lim), r.randint(0, 300) if w > 8 else 255, top if lim == 255 else lim]))
            vs.append(v)
        d = {"k": "benum", "name": name, "w": w, "variants": vs}
        c = r.random()
        if c < 0.3:
            vs.append({"name": "Other", "cap": r.choice(["tuple", "named"]) if not manual else "tuple"})
        elif c < 0.55 and not manual:
            r.choice(vs)["mark"] = True
        if manual:
            d["manual"] = True
        else:
            d["attr_prim"] = r.random() < 0.5
            d["partial_eq"] = r.random() < 0.5
        if legal_discriminants(vs, w):
            return d


def legal_discriminants(vs, w):
    """the language gives every variant without a value the value after the one before it"""
    seen = set()
    x = -1
    for v in vs:
        x = v["id"] if v.get("id") is not None else x + 1
        if x in seen or x >= 2 ** w:
            return False
        seen.add(x)
    return len(vs) <= 2 ** w


def gen_plain(r, o, name):
    """a large struct for which every bit pattern is a value of its own"""
    p = opts(nest=0, prim=0, arr=0.15, special=0, kinds=[("u", 1)], fill=0, perm=0, enforce=0, lsb0=o["lsb0"], reverse=o["reverse"], endian=o["endian"],
             big=0, names=0, fendian=o["fendian"], small_multi=o["small_multi"])
    fields = gen_fields(r, p, None, r.choice([150, 200, 400, 700]), 12)
    used = place(fields)[1]
    if used % 8:
        fields.append({"name": "pad", "t": {"k": "u", "w": 8}, "len": 8 - used % 8, "how": "bit"})
    return {"k": "struct", "name": name, "attrs": set_attrs(r, p), "fields": fields, "plain": True}


def gen_item(r, o, kind="struct"):
    """declarations with the main one last"""
    decls = []
    items = {"nested": [], "benums": []}
    if o["nest"]:
        small = opts(nest=0, prim=0, maxbits=r.choice([8, 16, 40, 100, 128]), maxf=4, special=0, small_multi=o["small_multi"], kinds=o["kinds"],
                     lsb0=o["lsb0"], reverse=o["reverse"], fill=0.05, endian=o["endian"], perm=0.0)
        for i in range(r.choice([1, 1, 2, 2, 3])):
            if r.random() < 0.7:
                deeper = bool(decls) and r.random() < 0.5
                d = gen_struct(r, opts(**{**small, "nest": 0.5, "maxbits": 120}) if deeper else small, f"N{i}", items if deeper else None)
            else:
                d = gen_enum(r, opts(**{**small, "lsb0": 0}), f"N{i}", maxbits=40)
            if layout(d)["bytes"] <= 16:
                decls.append(d)
                items["nested"].append(d)
        if r.random() < 0.15:
            d = gen_plain(r, o, "N9")
            decls.append(d)
            items["nested"].append(d)
    if o["prim"]:
        for i in range(r.choice([1, 1, 2])):
            d = gen_benum(r, f"P{i}", r.random() < 0.5)
            decls.append(d)
            items["benums"].append(d)
    if kind == "struct":
        decls.append(gen_struct(r, o, "S", items))
    elif kind == "enum":
        decls.append(gen_enum(r, o, "E", items, capture=o.get("capture", 0.3)))
    else:
        decls.append(gen_benum(r, "P"))
    main = decls[-1]
    used = set(refs(main))
    for d in reversed(decls[:-1]):
        if d["name"] in used:
            used.update(refs(d))
    decls = [d for d in decls[:-1] if d["name"] in used] + [main]
    item = {"decls": decls}
    if r.random() < o["names"]:
        for d in decls:
            rename(r, d)
        item["scope"] = [x for x in SCOPE + SHADOWED if r.random() < 0.4] if r.random() < 0.8 else []
        if r.random() < 0.5:
            item["paths"] = True
        if r.random() < 0.4:
            item["alias"] = r.choice(ALIAS)
            item["scope"] = [x for x in item["scope"] if item["alias"] not in x]
        if r.random() < 0.5:
            item["macro"] = True
            for fs in ([main["fields"]] if kind == "struct" else [v["fields"] for v in main["variants"]] if kind == "enum" else []):
                for f in fs:
                    f["mt"] = r.choice([None, "ty", "ty", "ident"])
                    f["mn"] = r.random() < 0.3
        if r.random() < 0.5:
            for d in decls:
                strangers(r, d)
        if r.random() < 0.4:
            inner = ["pub ", "pub(crate) "]
            if not item["scope"] and not item.get("paths") and not item.get("alias"):
                inner += ["", "pub(self) ", "pub(super) "]
            for d in decls:
                d["vis"] = r.choice(inner)
                for f in d["fields"] if d["k"] == "struct" else []:
                    f["vis"] = r.choice(inner)
    return item


# attributes which belong to others; the helpers are those of the derive macro in foreign/lib.rs
NOTES = ['#[doc = concat!("bit_", "length")]', '#[doc = "reserve"]', '/// bit_length = 3\n', "#[allow(unused, clippy::all)]", '#[cfg_attr(all(), doc = "reverse")]', "#[cfg(all())]",
         '#[cfg_attr(any(), bondrewd(bit_length = 1, reserve, invalid))]', "#[doc(hidden)]"]
ITEM = ['#[must_use = "reverse"]', "#[rustfmt::skip]", "#[warn(unused)]", '#[doc(alias = "reverse")]', "#[non_exhaustive]", '#[deprecated(note = "x")]', '#[deprecated = "reverse"]']
FIELD = ['#[deprecated = "bit_length"]', "#[deprecated]", "#[rustfmt::skip]"]
HELPERS = ["#[{0}]", "#[{0} = 1]", '#[{0} = "be"]', "#[{0}(u8, 1)]", "#[{0}(bondrewd(reserve))]", "#[{0}{{any tokens = ; at all}}]"]
HELPED = ["reserve", "read_only", "redundant", "reverse", "invalid", "bit_length", "byte_length", "endianness", "default_endianness", "bits", "fill_bytes", "enforce_bytes",
          "enforce_bits", "enforce_full_bytes", "id_bit_length", "variant_id", "capture_id", "read_from", "overlapping_bits", "struct_size", "enum_primitive",
          "element_bit_length", "block_bit_length", "partial_eq", "bondrewd_field"]


def strangers(r, d):
    """attributes of others on the declaration, its variants and its fields"""
    helped = not d.get("manual") and r.random() < 0.6
    if helped:
        d["fderive"] = True

    def some(more):
        out = []
        while r.random() < 0.4:
            out.append(r.choice(HELPERS).format(r.choice(HELPED)) if helped and r.random() < 0.6 else r.choice(NOTES + more))
        return [a for i, a in enumerate(out) if not any(a[:8] == b[:8] and b[:8] in ("#[deprec", "#[must_u", "#[non_ex") for b in out[:i])]
    d["foreign"] = some(ITEM)
    for v in d.get("variants") or []:
        v["foreign"] = some(FIELD)
    for fs in [d["fields"]] if d["k"] == "struct" else [v["fields"] for v in d["variants"]] if d["k"] == "enum" else []:
        for f in fs:
            f["foreign"] = some(FIELD)
            f["fpost"] = r.random() < 0.5




RAW = ["type", "match", "fn", "in", "mod", "ref", "use", "loop", "move", "box", "async", "struct", "try", "enum", "where", "as", "dyn", "static", "override"]
SUFFIX = ["_0", "_1", "_bytes", "_buffer", "_bits", "_slice", "_id", "_"]
PLAIN = ["id", "from_bytes", "into_bytes", "buffer", "bytes", "out", "index", "slice_length", "buf_len", "check_size", "variant", "c", "i", "hex", "value", "field_0",
         "bit_size", "check_slice", "u8", "usize", "core", "bondrewd", "reserve", "invalid", "default", "Self_", "X", "fill_bytes", "read", "write", "slice"]
ALIAS = ["Vec", "Option", "Result", "String", "Default", "PartialEq", "BitfieldLengthError", "TryFrom", "Some", "Box", "r#Self_", "S_",
         "_S", "lower", "u8_", "Into", "Clone", "Ordering", "Eq", "Debug"]
SCOPE = ["type Result<T> = core::result::Result<T, ()>;", "struct Vec;", "struct String;", "enum Ordering { Less }",
         "enum Outcome { Ok, Err, Some, None } use Outcome::*;", "fn from_bytes() {}", "const SIZE: usize = 3;"]
# filled from the expansion of the macro (harvest.py)
BOUND, USED, SHADOWED = [], [], []


def rename(r, d):
    """field names nobody would think of as special"""
    for v in d["variants"] if d["k"] == "benum" else []:
        if v.get("cap") == "named":
            v["capname"] = r.choice(r.choice([["r#" + x for x in RAW], PLAIN, BOUND + USED + ["input", "other", "self_"]]))
    groups = [d["fields"]] if d["k"] == "struct" else [v["fields"] for v in d["variants"] if not v.get("unit") and not v.get("tuple")] if d["k"] == "enum" else []
    for fs in groups:
        taken = {f["name"] for f in fs}
        for f in fs:
            x = r.random()
            n = f["name"]
            if BOUND and x < 0.3:
                n = r.choice(r.choice([BOUND, BOUND, USED]))
            elif x < 0.45:
                n = "r#" + r.choice(RAW)
            elif x < 0.75 and len(fs) > 1:
                o = r.choice([g for g in fs if g is not f])["name"]
                n = (o[2:] if o.startswith("r#") else o) + r.choice(SUFFIX)
            elif x < 0.88:
                n = r.choice(PLAIN)
            others = {plain(t) for t in taken - {f["name"]}}
            if plain(n) not in others and not clash(plain(n), others):
                taken = taken - {f["name"]} | {n}
                f["name"] = n


def clash(n, others):
    """the accessors read_slice_X of field X and read_Y of a field Y = slice_X share a name: not for us to use"""
    return "slice_" + n in others or (n.startswith("slice_") and n[6:] in others)


def plain(name):
    return name[2:] if name.startswith("r#") else name


def refs(d):
    if d["k"] == "struct":
        fs = d["fields"]
    elif d["k"] == "enum":
        fs = [f for v in d["variants"] for f in v["fields"]]
    else:
        return []
    return [f["t"]["ref"] for f in fs if "ref" in f["t"]]


def classes(item):
    """names of what a declaration exercises, for the coverage report"""
    d = item["decls"][-1]
    out = {d["k"]}
    if d["k"] == "benum":
        if any(v.get("cap") for v in d["variants"]):
            out.add("benum capturing")
        if any(v.get("mark") for v in d["variants"]):
            out.add("benum marked invalid")
        if any(v.get("id") is not None for v in d["variants"]):
            out.add("benum explicit values")
        return out
    at = d["attrs"]
    if at.get("reverse"):
        out.add("reverse")
    if at.get("read_from") == "lsb0":
        out.add("lsb0")
    if at.get("fill") is not None:
        out.add("fill_bytes")
    if any(at.get(k) is not None for k in ("enf_bits", "enf_bytes", "enf_full")):
        out.add("enforced")
    groups = [d["fields"]] if d["k"] == "struct" else [v["fields"] for v in d["variants"]]
    if d["k"] == "enum":
        if any(v.get("invalid") for v in d["variants"]):
            out.add("enum marked invalid")
        if any(f.get("capture") for g in groups for f in g):
            out.add("capture_id")
        if at["id_bits"] > 16:
            out.add("id wider than 16 bits")
    for g in groups:
        p = 0
        for f in g:
            k = f["t"]["k"]
            n = field_bits(f)
            out.add({"u": "unsigned", "i": "signed", "s": "nested", "e": "primitive enum", "f": "float"}.get(k, k))
            if f.get("arr"):
                out.add({"bl": "block array", "split": "array with a total length"}.get(f["arr"]["mode"], "element array"))
            for a in ("reserve", "read_only", "redundant", "overlap"):
                if f.get(a):
                    out.add(a)
            if f.get("at") is not None:
                out.add("bits = range")
            if f.get("endian"):
                out.add("per field endianness")
            if not f.get("redundant"):
                if p % 8 and p % 8 + n > 8:
                    out.add("unaligned field over a byte boundary")
                p += n
    return out
