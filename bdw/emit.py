"""Rust text: a declaration as a user would write it, and the tables and conversions the checks use."""
import random, re, threading
from model import layout, benum_layout, type_bits, id_width, element_leaves, field_bits

SNAKE = {}


def snake(n):
    out = ""
    for i, c in enumerate(n):
        if c.isupper() and i:
            out += "_"
        out += c.lower()
    return out


# ---------------------------------------------------------------- declarations
# how the declaration being written is spelled: the module of the other declarations, the arguments of the macro it is in
class How(threading.local):
    mod = ""
    args = None


HOW = How()


def ty(t):
    k = t["k"]
    if k in "uif":
        return f"{k}{t['w']}"
    if k in ("s", "e"):
        return t["ref"]
    return k


def arg(kind, text):
    HOW.args.append((kind, text))
    return f"$p{len(HOW.args) - 1}"


def field_ty(f):
    if f.get("rty"):
        return f["rty"]
    a = f.get("arr")
    t = HOW.mod + ty(f["t"]) if "ref" in f["t"] else ty(f["t"])
    if HOW.args is not None and f.get("mt") in ("ty", "elem"):
        t = arg("ty", t)
    elif HOW.args is not None and f.get("mt") == "ident" and ":" not in t:
        t = arg("ident", t)
    if a:
        t = f"[{t}; {number(a['n'], f.get('sp'))}]"
    return t


def field_name(f):
    if HOW.args is not None and f.get("mn"):
        return arg("ident", f["name"])
    return f["name"]


def foreign(x, sep=" "):
    """attributes of others"""
    return "".join(a + sep for a in x.get("foreign") or [])


def derive(d, names):
    return "#[derive(" + names + (", foreign::Foreign" if d.get("fderive") else "") + ", Clone, Debug, PartialEq)]\n" + foreign(d, "\n")


def field_attrs(f):
    own = own_attrs(f)
    return own + foreign(f) if f.get("fpost") else foreign(f) + own


def spell(parts, sp):
    """the numbers of the attributes in other notations"""
    if not sp:
        return parts
    return [re.sub(r"^(\w+ = )(\d+)$", lambda m: m[1] + number(int(m[2]), sp), p) for p in parts]


def number(n, sp):
    if sp == "x":
        return hex(n)
    if sp == "b" and n < 2 ** 16:
        return "0b" + bin(n)[2:].rjust(8, "0")
    if sp == "o":
        return oct(n)
    if sp == "_":
        return str(n)[0] + "_" + str(n)[1:]
    return str(n)


def own_attrs(f):
    parts = []
    t = f["t"]
    a = f.get("arr")
    if f.get("capture"):
        parts.append("capture_id")
    if t["k"] == "s" and t.get("attr"):
        parts.append(f"struct_size = {t['bytes']}")
    if t["k"] == "e":
        parts.append(f'enum_primitive = "u{t["w"]}"')
    n = f.get("len")
    how = f.get("how", "bit")
    if n is not None:
        if a and a["mode"] == "bl":
            parts.append(f"block_byte_length = {n // 8}" if how == "byte" else f"block_bit_length = {n}")
        elif a and a["mode"] == "el":
            parts.append(f"element_byte_length = {n // 8}" if how == "byte" else f"element_bit_length = {n}")
        elif how == "byte":
            parts.append(f"byte_length = {n // 8}")
        elif how == "bit":
            parts.append(f"bit_length = {n}")
    if f.get("at") is not None:
        parts.append(f'bits = "{f["at"]}..{f["at"] + field_bits(f)}"')
    if f.get("endian"):
        parts.append(f'endianness = "{f.get("ealias") or f["endian"]}"')
    for k in ("reserve", "read_only", "redundant"):
        if f.get(k):
            if k == "redundant" and f.get("spelled"):
                parts += ["read_only", f"overlapping_bits = {field_bits(f)}"]
            else:
                parts.append(k)
    if f.get("overlap"):
        parts.append(f"overlapping_bits = {f['overlap']}")
    parts = spell(parts, f.get("sp")) + f.get("raw", [])
    order = f.get("aorder", 0)
    if order == 1 and not (t["k"] in "se" and a):
        parts.reverse()
    if not parts:
        return ""
    if f.get("doc"):
        return f"#[doc = \"bit_length = 1\"] #[allow(unused)] #[bondrewd({', '.join(parts)})] "
    if f.get("split"):
        return " ".join(f"#[bondrewd({p})]" for p in parts) + " "
    return f"#[bondrewd({', '.join(parts)})] "


def struct_attrs(at):
    parts = []
    if at.get("endian"):
        parts.append(f'default_endianness = "{at.get("ealias") or at["endian"]}"')
    if at.get("id_bits") is not None:
        how = at.get("id_how", "bit")
        if how == "byte":
            parts.append(f"id_byte_length = {at['id_bits'] // 8}")
        elif how == "bit":
            parts.append(f"id_bit_length = {at['id_bits']}")
    if at.get("payload") is not None:
        parts.append(f"payload_byte_length = {at['payload'] // 8}" if at.get("payload_how") == "byte" and at["payload"] % 8 == 0
                     else f"payload_bit_length = {at['payload']}")
    if at.get("read_from"):
        parts.append(f'read_from = "{at["read_from"]}"')
    if at.get("reverse"):
        parts.append("reverse")
    if at.get("fill") is not None:
        parts.append(f"fill_bytes = {at['fill']}")
    if at.get("enf_bits") is not None:
        parts.append(f"enforce_bits = {at['enf_bits']}")
    if at.get("enf_bytes") is not None:
        parts.append(f"enforce_bytes = {at['enf_bytes']}")
    if at.get("enf_full"):
        parts.append("enforce_full_bytes")
    parts = spell(parts, at.get("sp")) + at.get("raw", [])
    if at.get("order") is not None:
        random.Random(at["order"]).shuffle(parts)
    if at.get("split"):
        return "".join(f"#[bondrewd({p})]\n" for p in parts)
    return f"#[bondrewd({', '.join(parts)})]\n" if parts else ""


def fields_text(fields, tuple_, vis="", sep=" "):
    seen = lambda f: f.get("vis", vis) if vis else ""
    if tuple_:
        return "(" + ", ".join(field_attrs(f) + seen(f) + field_ty(f) for f in fields) + ")"
    return "{" + sep + ("," + sep).join(field_attrs(f) + seen(f) + field_name(f) + ": " + field_ty(f) for f in fields) + sep + "}"


def decl_text(d):
    if "text" in d:
        return d["text"]
    if d["k"] == "struct":
        body = fields_text(d["fields"], d.get("tuple"), "pub ", "\n    ")
        return derive(d, "Bitfields") + struct_attrs(d["attrs"]) + d.get("vis", "pub ") + f"struct {d['name']} {body}" + (";" if d.get("tuple") else "") + "\n"
    if d["k"] == "enum":
        out = derive(d, "Bitfields") + struct_attrs(d["attrs"]) + d.get("vis", "pub ") + f"enum {d['name']} {{\n"
        for v in d["variants"]:
            parts = []
            if v.get("id") is not None and v.get("id_how") == "attr":
                parts.append(f"variant_id = {v['id']}")
            if v.get("invalid"):
                parts.append("invalid")
            if v.get("endian"):
                parts.append(f'default_endianness = "{v["endian"]}"')
            if v.get("fill") is not None:
                parts.append(f"fill_bytes = {v['fill']}")
            if v.get("enf_bits") is not None:
                parts.append(f"enforce_bits = {v['enf_bits']}")
            parts = spell(parts, v.get("sp")) + v.get("raw", [])
            out += foreign(v)
            if parts:
                out += f"    #[bondrewd({', '.join(parts)})]\n"
            body = "" if v.get("unit") else fields_text(v["fields"], v.get("tuple"))
            disc = f" = {number(v['id'], v.get('sp'))}" if v.get("id") is not None and v.get("id_how") != "attr" else ""
            out += f"    {v['name']}{body}{disc},\n"
        return out + "}\n"
    if d["k"] == "benum":
        return benum_text(d)
    raise ValueError(d["k"])


def benum_text(d):
    lo = benum_layout(d)
    w = d["w"]
    if d.get("manual"):
        vs = d["variants"]
        out = f"#[derive(Clone, Debug, PartialEq)]\npub enum {d['name']} {{ " + ", ".join(
            v["name"] + (f"(u{w})" if v.get("cap") else "") for v in vs) + " }\n"
        fr = ", ".join(f"{x} => Self::{v['name']}" for v, x in zip(vs, lo["values"]) if not v.get("cap"))
        c = vs[lo["catch_all"]]
        fr += f", _ => Self::{c['name']}" + ("(input)" if c.get("cap") else "")
        into = ", ".join(f"Self::{v['name']}" + ("(x) => x" if v.get("cap") else f" => {x}") for v, x in zip(vs, lo["values"]))
        out += (f"impl bondrewd::BitfieldEnum for {d['name']} {{ type Primitive = u{w}; "
                f"#[allow(unreachable_patterns)] fn from_primitive(input: u{w}) -> Self {{ match input {{ {fr} }} }} "
                f"fn into_primitive(self) -> u{w} {{ match self {{ {into} }} }} }}\n")
        return out
    out = derive(d, "BitfieldEnum")
    if any(v.get("cap") for v in d["variants"]) and any(v.get("id") is not None for v in d["variants"]):
        out += "#[repr(u8)]\n"
    at = [x for x, on in (("u8", d.get("attr_prim")), ("partial_eq", d.get("partial_eq"))) if on] + d.get("raw", [])
    if at:
        out += f"#[bondrewd_enum({', '.join(at)})]\n"
    out += d.get("vis", "pub ") + f"enum {d['name']} {{\n"
    for v in d["variants"]:
        out += foreign(v)
        if v.get("mark"):
            out += "    #[bondrewd_enum(invalid)]\n"
        out += "    " + v["name"]
        if v.get("rfields"):
            out += v["rfields"]
        elif v.get("cap") == "tuple":
            out += "(u8)"
        elif v.get("cap") == "named":
            out += f" {{ {v.get('capname', 'inner')}: u8 }}"
        elif v.get("id") is not None:
            out += f" = {number(v['id'], v.get('sp'))}"
        out += ",\n"
    return out + "}\n"


# ---------------------------------------------------------------- glue
KIND = {"u": "UINT", "i": "INT", "bool": "BOOL", "char": "CHAR", "f": "FLOAT", "s": "NESTED", "e": "BENUM"}


def to_rust(f, t, n, v):
    """expression of the leaf's rust type from the u128 expression v; n its bits"""
    k = t["k"]
    if k == "u":
        return f"({v} as {ty(t)})"
    if k == "i":
        return f"({v} as {ty(t)})"
    if k == "bool":
        return f"({v} & 1 != 0)"
    if k == "char":
        return f"rt::ch({v})"
    if k == "f":
        return f"{ty(t)}::from_bits({v} as u{t['w']})"
    if k == "s":
        return f"{t['ref']}::from_bytes(rt::nb::<{t['bytes']}>({v}, {n}))"
    if k == "e":
        return f"{t['ref']}::from_primitive({v} as u{t['w']})"


def from_rust(f, t, n, x):
    """u128 from an expression x of the leaf's type (a place, not moved)"""
    k = t["k"]
    if k == "u":
        return f"{x} as u128"
    if k == "i":
        return f"{x} as u{t['w']} as u128"
    if k == "bool":
        return f"{x} as u128"
    if k == "char":
        return f"{x} as u32 as u128"
    if k == "f":
        return f"{x}.to_bits() as u128"
    if k == "s":
        return f"rt::bn(&{x}.clone().into_bytes(), {n})"
    if k == "e":
        return f"{x}.clone().into_primitive() as u128"


def element_sizes(f, idb=None):
    if f.get("capture"):
        return [[idb]]
    return [[b - a for a, b in g] for g in element_leaves(f, 0, field_bits(f))]


def leaf_sizes(f, idb=None):
    return [n for g in element_sizes(f, idb) for n in g]


def element_value(f, g, base):
    if len(g) == 1:
        return to_rust(f, f["t"], g[0], f"v[{base}]")
    return f"{f['t']['ref']}::from_bytes(rt::nbs::<{f['t']['bytes']}>(&v[{base}..{base + len(g)}], {sum(g)}))"


def element_back(f, g, x):
    if len(g) == 1:
        return [from_rust(f, f["t"], g[0], x)]
    return [f"rt::bns(&{x}.clone().into_bytes(), {128 * i}, {n})" for i, n in enumerate(g)]


def field_value(f, groups, base):
    """the field's value from v[base..]"""
    out = []
    for g in groups:
        out.append(element_value(f, g, base))
        base += len(g)
    return "[" + ", ".join(out) + "]" if f.get("arr") else out[0]


def field_back(f, groups, x):
    if not f.get("arr"):
        return element_back(f, groups[0], x)
    return [b for i, g in enumerate(groups) for b in element_back(f, g, f"{x}[{i}]")]


def leaf_text(name, kind, width, pos, enc, dec, norm):
    return (f"Leaf {{ name: {name!r}, kind: {kind}, width: {width}, pos: &{pos}, enc: {str(enc).lower()}, "
            f"dec: {str(dec).lower()}, norm: {norm} }}").replace("'", '"')


class Glue:
    def __init__(self, d, deps, feats):
        self.d = d
        self.deps = deps
        self.feats = feats
        self.lay = layout(d)

    def norm(self, f, n):
        t = f["t"]
        if t["k"] == "s":
            return f"Some(|x| D_{t['ref'].upper()}.norm(x, {n}))"
        if t["k"] == "e":
            return f"Some(|x| E_{t['ref'].upper()}.norm(x))"
        return "None"

    def leaves(self, fields, groups, idb=None):
        out = []
        for f, g in zip(fields, groups):
            sizes = leaf_sizes(f, idb)
            for i, (pos, n) in enumerate(zip(g, sizes)):
                name = f["name"] if not f.get("arr") else f"{f['name']}[{i}]"
                enc = not (f.get("reserve") or f.get("read_only") or f.get("redundant"))
                dec = not f.get("reserve") or bool(f.get("read_only") or f.get("redundant"))
                w = type_bits(f["t"]) if f["t"]["k"] != "s" else min(128, n)
                plain = f["t"].get("plain")
                out.append(leaf_text(name, "UINT" if plain else KIND[f["t"]["k"]], w, pos, enc, dec, "None" if plain else self.norm(f, n)))
        return out

    def accessor(self, f, sizes, groups_leaves, var, lo, pre, T):
        B = self.lay["bytes"]
        N = self.d["name"]
        nm = pre + f["_acc"]
        val = field_value(f, sizes, 0)
        back = ", ".join(field_back(f, sizes, "x"))
        dy = "None"
        if "dyn" in self.feats and not f.get("capture"):
            dy = ("Some(DynAcc { "
                  f"rs: |b| {N}::read_slice_{nm}(b).map(|x| vec![{back}]).map_err(|e| said_len(&e, e.0, e.1)), "
                  f"ws: Some(|b, v| {N}::write_slice_{nm}(b, {val}).map_err(|e| (e.0, e.1))), "
                  f"cr: Some(|b| {N}::check_slice(b).map(|c| {{ let x = c.read_{nm}(); vec![{back}] }}).map_err(|e| (e.0, e.1))), "
                  f"cmr: Some(|b| {N}::check_slice_mut(b).map(|c| {{ let x = c.read_{nm}(); vec![{back}] }}).map_err(|e| (e.0, e.1))), "
                  f"cmw: Some(|b, v| {N}::check_slice_mut(b).map(|mut c| c.write_{nm}({val})).map_err(|e| (e.0, e.1))), "
                  f"ur: Some(|b| {{ let x = {N}Checked::from_unchecked_slice(b).read_{nm}(); vec![{back}] }}), "
                  f"uw: Some(|b, v| {N}CheckedMut::from_unchecked_slice(b).write_{nm}({val})) }})")
        return (f"Acc {{ name: \"{nm}\", var: {var}, lo: {lo}, leaves: &[{', '.join(groups_leaves)}], "
                f"read: |b| {{ let b: &[u8; {B}] = b.try_into().unwrap(); let x = {N}::read_{nm}(b); vec![{back}] }}, "
                f"write: |b, v| {{ let b: &mut [u8; {B}] = b.try_into().unwrap(); {N}::write_{nm}(b, {val}); }}, dy: {dy} }}")

    def desc(self):
        d, lay = self.d, self.lay
        N, B = d["name"], lay["bytes"]
        U = N.upper()
        out = []
        var_txt, acc_txt, mk, un = [], [], [], []
        if d["k"] == "struct":
            vs = [{"name": N, "fields": d["fields"], "tuple": d.get("tuple"), "path": N}]
            lays = [lay["fields"]]
            ids = [0]
            idb = None
            catch = 0
        else:
            vs = [dict(v, path=f"{N}::{v['name']}") for v in d["variants"]]
            lays = [v["fields"] for v in lay["variants"]]
            ids = lay["ids"]
            idb = d["attrs"]["id_bits"]
            catch = lay["catch_all"]
            idw = id_width(idb)
            id_leaf = leaf_text("variant_id", "UINT", idw, lay["id_pos"], True, True, "None")
            dy = "None"
            if "dyn" in self.feats:
                dy = (f"Some(DynAcc {{ rs: |b| {N}::read_slice_variant_id(b).map(|x| vec![x as u128]).map_err(|e| (e.0, e.1)), "
                      "ws: None, cr: None, cmr: None, cmw: None, ur: None, uw: None })")
            acc_txt.append(
                f"Acc {{ name: \"variant_id\", var: usize::MAX, lo: 0, leaves: &[{id_leaf}], "
                f"read: |b| {{ let b: &[u8; {B}] = b.try_into().unwrap(); vec![{N}::read_variant_id(b) as u128] }}, "
                f"write: |b, v| {{ let b: &mut [u8; {B}] = b.try_into().unwrap(); {N}::write_variant_id(b, v[0] as u{idw}); }}, dy: {dy} }}")
        for vi, (v, groups) in enumerate(zip(vs, lays)):
            fields = v["fields"]
            # names of accessors of tuple fields
            off = 1 if d["k"] == "enum" else 0
            cap = bool(fields and fields[0].get("capture"))
            for i, f in enumerate(fields):
                f["_acc"] = f["name"].removeprefix("r#") if not v.get("tuple") else f"field_{i + (0 if cap else off)}"
            leaves = self.leaves(fields, groups, idb)
            var_txt.append(f"Var {{ name: \"{v['name']}\", id: {ids[vi]}, catch_all: {str(vi == catch and d['k'] == 'enum').lower()}, "
                           f"capture: {str(cap).lower()}, leaves: &[{', '.join(leaves)}] }}")
            lo = 0
            exprs, backs, binds = [], [], []
            for i, (f, g) in enumerate(zip(fields, groups)):
                sizes = element_sizes(f, idb)
                exprs.append(field_value(f, sizes, lo))
                binds.append(f"f{i}")
                backs += [b for b in field_back(f, sizes, f"(*f{i})" if not f.get("arr") else f"f{i}")]
                if not f.get("capture"):
                    pre = snake(v["name"]) + "_" if d["k"] == "enum" else ""
                    acc_txt.append(self.accessor(f, sizes, leaves[lo:lo + sum(map(len, sizes))], vi, lo, pre, None))
                lo += sum(map(len, sizes))
            if not fields:
                empty = "" if v.get("unit") else "()" if v.get("tuple") else " {}"
                mk.append(f"{vi} => {v['path']}{empty}")
                un.append(f"{v['path']}{empty} => ({vi}, vec![])")
            elif v.get("tuple"):
                mk.append(f"{vi} => {v['path']}({', '.join(exprs)})")
                un.append(f"{v['path']}({', '.join(binds)}) => ({vi}, vec![{', '.join(backs)}])")
            else:
                mk.append(f"{vi} => {v['path']} {{ " + ", ".join(f"{f['name']}: {e}" for f, e in zip(fields, exprs)) + " }")
                un.append(f"{v['path']} {{ " + ", ".join(f"{f['name']}: {b}" for f, b in zip(fields, binds)) + f" }} => ({vi}, vec![{', '.join(backs)}])")
        L = id_width(idb) if idb is not None else 0
        out.append(f"fn mk_{U}(var: usize, v: &[u128]) -> {N} {{ let _ = v; match var {{ {', '.join(mk)}, _ => unreachable!() }} }}")
        out.append(f"fn un_{U}(x: &{N}) -> (usize, Vals) {{ match x {{ {', '.join(un)} }} }}")
        id_fn = id_eq = "None"
        if d["k"] == "enum":
            id_fn = f"Some(|var, v| mk_{U}(var, v).id() as u128)"
            if "eq" in self.feats:
                id_eq = f"Some(|var, v, n| mk_{U}(var, v) == (n as u{L}))"
        dyn = hexf = "None"
        if "dyn" in self.feats:
            dyn = (f"Some(DynFns {{ from_slice: |b| {N}::from_slice(b).map(|x| un_{U}(&x)).map_err(|e| said_len(&e, e.0, e.1)), "
                   f"from_vec: |b| {N}::from_vec(b).map(|x| un_{U}(&x)).map_err(|e| (e.0, e.1)) }})")
        if "hex" in self.feats:
            he = ("|e| { let s = e.to_string(); match e { bondrewd::BitfieldHexDynError::Length(l) => { said_len(&s, l.0, l.1); HexErr::Len(l.0, l.1) }, "
                  "bondrewd::BitfieldHexDynError::Hex(h) => { said_hex(&s, h.0, h.1); HexErr::Hex(h.0, h.1) } } }")
            sl = vec = "None"
            if "dyn" in self.feats:
                sl = f"Some(|b| {N}::from_hex_slice(b).map(|x| un_{U}(&x)).map_err({he}))"
                vec = f"Some(|b| {N}::from_hex_vec(b).map(|x| un_{U}(&x)).map_err({he}))"
            hexf = (f"Some(HexFns {{ hex_size: {B * 2}, upper: |var, v| mk_{U}(var, v).into_hex_upper().to_vec(), "
                    f"lower: |var, v| mk_{U}(var, v).into_hex_lower().to_vec(), "
                    f"from_hex: |b| {{ let b: [u8; {B * 2}] = b.try_into().unwrap(); {N}::from_hex(b).map(|x| un_{U}(&x)).map_err(|e| {{ said_hex(&e, e.0, e.1); HexErr::Hex(e.0, e.1) }}) }}, "
                    f"from_hex_slice: {sl}, from_hex_vec: {vec} }})")
        sizes = "&[]"
        idl = "None" if d["k"] == "struct" else f"Some({id_leaf})"
        out.append(
            f"pub static D_{U}: Desc = Desc {{ name: \"@NAME@{N}\", is_enum: {str(d['k'] == 'enum').lower()}, bytes: {B}, bits: {lay['bits']}, "
            f"consts: || (<{N} as Bitfields<{B}>>::BYTE_SIZE, <{N} as Bitfields<{B}>>::BIT_SIZE), id_leaf: {idl}, "
            f"vars: &[{', '.join(var_txt)}], enc: |var, v| mk_{U}(var, v).into_bytes().to_vec(), "
            f"dec: |b| {{ let b: [u8; {B}] = b.try_into().unwrap(); un_{U}(&{N}::from_bytes(b)) }}, "
            f"id_fn: {id_fn}, id_eq: {id_eq}, accs: &[{', '.join(acc_txt)}], dy: {dyn}, hex: {hexf} }};")
        return "\n".join(out) + "\n"


def benum_desc(d):
    lo = benum_layout(d)
    N, U, w = d["name"], d["name"].upper(), d["w"]
    vs = d["variants"]
    fr, into, vals = [], [], []
    for i, (v, x) in enumerate(zip(vs, lo["values"])):
        if v.get("cap") == "named":
            inner = v.get("capname", "inner")
            fr.append(f"{N}::{v['name']} {{ {inner}: x }} => ({i}, x as u128)")
            into.append(f"{i} => {N}::{v['name']} {{ {inner}: c as u{w} }}")
        elif v.get("cap"):
            fr.append(f"{N}::{v['name']}(c) => ({i}, c as u128)")
            into.append(f"{i} => {N}::{v['name']}(c as u{w})")
        else:
            vals.append(f"({i}, {x})")
            fr.append(f"{N}::{v['name']} => ({i}, 0)")
            into.append(f"{i} => {N}::{v['name']}")
    eq = f"Some(|i, c, p| mk_{U}(i, c) == (p as u{w}))" if d.get("partial_eq") else "None"
    return (f"fn mk_{U}(i: usize, c: u128) -> {N} {{ let _ = c; match i {{ {', '.join(into)}, _ => unreachable!() }} }}\n"
            f"pub static E_{U}: EDesc = EDesc {{ name: \"@NAME@{N}\", width: {w}, vals: &[{', '.join(vals)}], "
            f"catch_all: ({lo['catch_all']}, {str(lo['captures']).lower()}), "
            f"from: |p| match {N}::from_primitive(p as u{w}) {{ {', '.join(fr)} }}, "
            f"into: |i, c| mk_{U}(i, c).into_primitive() as u128, eq: {eq} }};\n")


def decls_text(item):
    """the declarations, next to whatever the item says is in scope there"""
    head = "".join(decl_text(d) for d in item["decls"][:-1])
    alias = item.get("alias") if item["decls"][-1]["k"] != "benum" else None
    paths = bool((item.get("paths") or alias) and head)
    main = main_text(item, paths)
    if paths:
        head = "pub mod deps {\nuse bondrewd::*;\n" + head + "}\n"
    head += main
    if not item.get("scope") and not paths and not alias:
        return "use bondrewd::*;\n" + head
    return ("use bondrewd::*;\nmod scoped {\nuse bondrewd::*;\n" + "".join(x + "\n" for x in item.get("scope") or []) + head + "}\n"
            + (f"use scoped::{alias} as {item['decls'][-1]['name']};\n" if alias else "use scoped::*;\n")
            + ("use scoped::deps::*;\n" if paths else ""))


def main_text(item, paths=False):
    """the last declaration, with the others in a module of their own, and in a macro"""
    d = item["decls"][-1]
    if item.get("alias") and d["k"] != "benum":
        d = dict(d, name=item["alias"])
    HOW.mod = "deps::" if paths else ""
    HOW.args = [] if item.get("macro") and "text" not in d and d["k"] != "benum" else None
    try:
        t = decl_text(d)
        if HOW.args:
            t = ("macro_rules! declare {\n(" + ", ".join(f"$p{i}: {k}" for i, (k, _) in enumerate(HOW.args)) + ") => {\n" + t + "}\n}\ndeclare!("
                 + ", ".join(x for _, x in HOW.args) + ");\n")
        return t
    finally:
        HOW.mod, HOW.args = "", None


def item_text(item, mod, feats):
    """one module: all declarations of the item, then glue. Returns text, ([desc paths], [edesc paths])"""
    body = ""
    main, emain = [], []
    for i, d in enumerate(item["decls"]):
        last = i == len(item["decls"]) - 1
        if d["k"] == "benum":
            body += benum_desc(d).replace("@NAME@", f"{mod}." if last else f"{mod}.dep.")
            if last:
                emain.append(f"&{mod}::E_{d['name'].upper()}")
        else:
            body += Glue(d, item["decls"], feats).desc().replace("@NAME@", f"{mod}." if last else f"{mod}.dep.")
            if last:
                main.append(f"&{mod}::D_{d['name'].upper()}")
    alias, name = item.get("alias"), item["decls"][-1]["name"]
    views = "".join(f"use scoped::{alias}{x} as {name}{x};\n" for x in ("Checked", "CheckedMut")) if alias and main and "dyn" in feats else ""
    txt = f"mod {mod} {{\nuse rt::*;\n{decls_text(item)}{views}{body}}}\n"
    return txt, main, emain
