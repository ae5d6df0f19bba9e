"""Where every bit goes, computed from a declaration alone (never from Bondrewd's output).

A declaration is a plain dict (see gen.py).  layout() returns, for a struct or an enum, the byte and
bit size and for every field its leaves: the list of absolute bit positions in the byte array,
indexed by bit of the value.
"""
from math import ceil


def type_bits(t):
    k = t["k"]
    if k in "uif":
        return t["w"]
    if k == "bool":
        return 1
    if k == "char":
        return 32
    if k == "s":
        return t["bytes"] * 8
    if k == "e":
        return t["w"]
    raise ValueError(k)


def dims(f):
    a = f.get("arr")
    return a["n"] if a else 1


def field_bits(f):
    """bits between a field's start and end"""
    a = f.get("arr")
    n = f["len"] if f.get("len") is not None else None
    if a is None:
        return type_bits(f["t"]) if n is None else n
    if a["mode"] in ("bl", "split"):
        return n
    each = type_bits(f["t"]) if n is None else n
    return each * a["n"]


def leaf_ranges(f, s, e):
    return [x for g in element_leaves(f, s, e) for x in g]


def element_leaves(f, s, e):
    """the leaves of each element: one, except for nested values which do not fit into 128 bits"""
    return [[(i, min(i + 128, b)) for i in range(a, b, 128)] for a, b in element_ranges(f, s, e)]


def element_ranges(f, s, e):
    """logical bit range of each element"""
    a = f.get("arr")
    if a is None:
        return [(s, e)]
    n = a["n"]
    if a["mode"] == "bl":
        w = type_bits(f["t"])
        first = (e - s) % w or w
        out = [(s, s + first)]
        for i in range(1, n):
            out.append((out[-1][1], out[-1][1] + w))
        return out
    each = (e - s) // n
    return [(s + i * each, s + (i + 1) * each) for i in range(n)]


def value_positions(s, e, little):
    """logical positions by value bit"""
    n = e - s
    if not little or n <= 8:
        return [e - 1 - i for i in range(n)]
    pos = []
    for k in range(0, n, 8):
        m = min(8, n - k)
        for j in range(m):
            pos.append(s + k + m - 1 - j)
    return pos


def endian_of(f, default):
    """is it little"""
    if f["t"]["k"] in ("s", "bool"):
        return False
    e = f.get("endian") or default or "le"
    return e == "le"


def place(fields, start=0):
    """declared (start, end) of each field, and the total"""
    out = []
    ptr = start
    total = start
    for f in fields:
        n = field_bits(f)
        if f.get("capture"):
            out.append((0, start))
            continue
        s = f["at"] if f.get("at") is not None else ptr
        out.append((s, s + n))
        if f.get("redundant"):
            continue
        ptr = s + n
        total += n - f.get("overlap", 0)
    return out, total


def fits(d):
    """every field lies within the declared bits"""
    if d["k"] == "benum":
        return True
    start, groups = (0, [d["fields"]]) if d["k"] == "struct" else (d["attrs"]["id_bits"], [v["fields"] for v in d["variants"]])
    for fs in groups:
        spans, total = place(fs, start)
        if any(e > total for _, e in spans):
            return False
    return True


def struct_layout(d):
    spans, total = place(d["fields"])
    return finish(d["attrs"], spans, d["fields"], total)


def finish(at, spans, fields, total, little_default=None, whole=None):
    """spans -> leaves"""
    bits = at["fill"] * 8 if at.get("fill") is not None else total
    if whole is not None:
        bits = whole
    nbytes = ceil(bits / 8)
    groups = []
    for f, (s, e) in zip(fields, spans):
        if at.get("read_from") == "lsb0":
            s, e = total - e, total - s
        little = endian_of(f, at.get("endian"))
        if f.get("capture"):
            # the id itself
            rs = [(s, e)]
        else:
            rs = leaf_ranges(f, s, e)
        leaves = []
        for a, b in rs:
            pos = value_positions(a, b, little)
            leaves.append(flip(pos, nbytes) if at.get("reverse") else pos)
        groups.append(leaves)
    return {"bits": bits, "bytes": nbytes, "fields": groups, "used": total}


def flip(pos, nbytes):
    return [(nbytes - 1 - p // 8) * 8 + p % 8 for p in pos]


def assign_ids(vs):
    used = {v["id"] for v in vs if v.get("id") is not None}
    out = []
    nxt = 0
    for v in vs:
        if v.get("id") is not None:
            out.append(v["id"])
        else:
            while nxt in used:
                nxt += 1
            used.add(nxt)
            out.append(nxt)
    return out


def id_width(n):
    for w in (8, 16, 32, 64, 128):
        if n <= w:
            return w


def enum_layout(d):
    idb = d["attrs"]["id_bits"]
    ids = assign_ids(d["variants"])
    vs = []
    whole = 0
    for v in d["variants"]:
        spans, total = place(v["fields"], idb)
        fill = v["fill"] if v.get("fill") is not None else d["attrs"].get("fill")
        if fill is not None:
            total = fill * 8
        whole = max(whole, total)
    for v in d["variants"]:
        spans, total = place(v["fields"], idb)
        at = dict(d["attrs"], endian=v.get("endian") or d["attrs"].get("endian"))
        lay = finish(at, spans, v["fields"], total, whole=whole)
        for f, g in zip(v["fields"], lay["fields"]):
            if f.get("capture"):
                # the id itself, wherever it is: the variant's own defaults do not apply to it
                g[:] = [flip(p, ceil(whole / 8)) if d["attrs"].get("reverse") else p for p in [
                    value_positions(0, idb, (d["attrs"].get("endian") or "le") == "le")]]
        vs.append(lay)
    nbytes = ceil(whole / 8)
    little = (d["attrs"].get("endian") or "le") == "le"
    idp = value_positions(0, idb, little)
    if d["attrs"].get("reverse"):
        idp = flip(idp, nbytes)
    invalid = [i for i, v in enumerate(d["variants"]) if v.get("invalid")]
    return {"bits": whole, "bytes": nbytes, "ids": ids, "id_pos": idp, "variants": vs,
            "catch_all": invalid[0] if invalid else len(ids) - 1}


def layout(d):
    return struct_layout(d) if d["k"] == "struct" else enum_layout(d)


def benum_layout(d):
    """values of a primitive enum's variants and its catch-all"""
    vs = d["variants"]
    caps = [i for i, v in enumerate(vs) if v.get("cap")]
    marks = [i for i, v in enumerate(vs) if v.get("mark")]
    vals = assign_ids([{"id": 1 << 200} if v.get("cap") else v for v in vs])
    c = (marks or caps or [len(vs) - 1])[0]
    return {"values": vals, "catch_all": c, "captures": bool(vs[c].get("cap"))}
