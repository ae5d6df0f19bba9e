"""Names which the generated code uses, taken from its expansion: a dictionary for the names of fields and items (C24)."""
import os, random, re
import build, emit, gen

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct
super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen""".split())
# documented: parameters of the accessors, and the filler's accessors
TAKEN = {"input_byte_buffer", "output_byte_buffer", "fill_bits", "bondrewd_fill_bits"}
FIELDS = ["qz" + c + c for c in "abcdefghijklmnopqrstuvw"]


def expansion(run, feats):
    r = random.Random("harvest")
    o = gen.opts(names=0, nest=0.3, prim=0.3, special=0.3, arr=0.4, lsb0=0.3, reverse=0.3, fendian=0.3)
    src = "#![allow(warnings)]\n"
    old, gen.NAMES = gen.NAMES, FIELDS
    try:
        for i in range(60):
            kind = ("struct", "enum", "struct", "enum", "benum")[i % 5]
            it = gen.gen_item(r, dict(o, lsb0=0) if kind == "enum" else o, kind)
            src += f"mod m{i} {{\n{emit.decls_text(it)}}}\n"
    finally:
        gen.NAMES = old
    src = re.sub(r"#\[derive\((\w+), [^)]*\)\]", r"#[derive(\1)]", src)
    deps, crates = run.lib(feats)
    base = os.path.join(run.root, "harvest")
    with open(base + ".rs", "w") as f:
        f.write(src)
    build.rustc(base + ".rs", base + ".x", deps, crates, emit="metadata", extra=["-Zunpretty=expanded"], bootstrap=True)
    return src, open(base + ".x").read() if os.path.exists(base + ".x") else ""


def fill(run, feats):
    """puts the names into the dictionaries of the generator"""
    src, text = expansion(run, feats)
    strip = lambda s: re.sub(r"///?[^\n]*", "", re.sub(r'"(\\.|[^"\\])*"', '""', s))
    src, text = strip(src), strip(text)
    mine = set(re.findall(r"[A-Za-z_]\w*", src)) | KEYWORDS | TAKEN
    lower, suffixes, upper = set(), set(), set()
    for x in set(re.findall(r"(?<![\w#'])[A-Za-z_]\w*", text)) - mine:
        own = re.match(r"(qz\w\w|cid|red\d|ovl\d|field_\d)(_\w+)$", x)
        if own:
            suffixes.add(own[2])
        elif re.search(r"qz\w\w|Checked|B(IT|YTE)_SIZE$|^_+$|^(read|write)_|(cid|red\d|ovl\d|field_\d)$", x):
            continue
        elif x[0].isupper():
            upper.add(x)
        else:
            lower.add(x)
    # bound by let, as a parameter or in a pattern
    bound = {m for m in re.findall(r"(?:\blet|\bmut|\bfor|\bref|[|(,{])\s*(?:mut\s+)?([a-z_]\w*)\s*(?=[:=,|)}]|\bin\b)", text)} & lower
    gen.BOUND[:] = sorted(bound)
    gen.USED[:] = sorted(lower)
    gen.SUFFIX[:] = sorted(set(gen.SUFFIX) | suffixes)
    gen.SHADOWED[:] = [f"struct {x};" for x in sorted(upper) if not any(re.search(rf"\b{x}\b", s) for s in gen.SCOPE)]
    return {"bound": gen.BOUND, "used": gen.USED, "suffixes": gen.SUFFIX, "types": sorted(upper)}
