"""Structural shrinking of a failing declaration: fewer fields, fewer variants, fewer attributes.

Every candidate is a declaration of the same grammar, so a candidate which stops compiling is never
taken for a failure of a check (unless not compiling was the failure)."""
import copy, json, time
import emit, model, engine, profiles, build


def fields_of(d):
    if d["k"] == "struct":
        return [d["fields"]]
    if d["k"] == "enum":
        return [v["fields"] for v in d["variants"]]
    return []


def places(d):
    """the declaration, its variants and its fields"""
    out = [lambda d: d]
    out += [lambda d, i=i: d["variants"][i] for i in range(len(d.get("variants") or []))]
    for gi, fs in enumerate(fields_of(d)):
        out += [lambda d, gi=gi, i=i: fields_of(d)[gi][i] for i in range(len(fs))]
    return out


def bare(item):
    """nothing of others"""
    n = 0
    for d in item["decls"]:
        for get in places(d):
            for k in ("vis", "foreign", "fderive", "fpost"):
                n += get(d).pop(k, None) is not None
    return n


def candidates(item):
    d = item["decls"][-1]

    def new():
        c = copy.deepcopy(item)
        return c, c["decls"][-1]
    for i in range(len(item.get("scope") or [])):
        c, e = new()
        del c["scope"][i]
        yield c
    for k in ("paths", "macro", "alias"):
        if item.get(k):
            c, e = new()
            del c[k]
            yield c
    c, e = new()
    if bare(c):
        yield c
    for get in places(d):
        x = get(d)
        for k in ("vis", "foreign", "fderive"):
            if x.get(k) and not (k == "fderive" and any(g(d).get("foreign") for g in places(d))):
                c, e = new()
                del get(e)[k]
                yield c
        for i in range(len(x.get("foreign") or [])):
            c, e = new()
            del get(e)["foreign"][i]
            yield c
    for gi, fs in enumerate(fields_of(d) if d["k"] != "benum" else []):
        for i, f in enumerate(fs):
            if f["name"] not in ("cid", f"f{i}x"):
                c, e = new()
                fields_of(e)[gi][i]["name"] = f"f{i}x"
                yield c
    # attributes of the whole
    if "attrs" in d:
        for k in ("enf_bits", "enf_bytes", "enf_full", "payload", "fill", "read_from", "reverse", "order", "split", "sp"):
            if d["attrs"].get(k) is not None:
                c, e = new()
                del e["attrs"][k]
                yield c
        if any(d["attrs"].get(k) is not None for k in ("enf_bits", "enf_bytes", "enf_full", "payload")):
            c, e = new()
            for k in ("enf_bits", "enf_bytes", "enf_full", "payload"):
                e["attrs"].pop(k, None)
            d = e
            item = c
            yield c
    # positions, where they are what they would be anyway
    for gi, fs in enumerate(fields_of(d)):
        start = d["attrs"]["id_bits"] if d["k"] == "enum" else 0
        for i, f in enumerate(fs):
            if f.get("at") is not None and not f.get("overlap") and not f.get("redundant"):
                if (model.place(fs[:i], start)[1] if i else start) == f["at"] and not f.get("arr"):
                    c, e = new()
                    g = fields_of(e)[gi][i]
                    del g["at"]
                    g["how"] = "bit"
                    yield c
    if d["k"] == "enum":
        for i, v in enumerate(d["variants"]):
            if len(d["variants"]) > 1:
                c, e = new()
                del e["variants"][i]
                yield c
            for k in ("endian", "fill", "enf_bits", "sp"):
                if v.get(k) is not None:
                    c, e = new()
                    del e["variants"][i][k]
                    yield c
    if d["k"] == "benum":
        for i in range(len(d["variants"])):
            if len(d["variants"]) > 1:
                c, e = new()
                del e["variants"][i]
                yield c
    for gi, fs in enumerate(fields_of(d)):
        for i, f in enumerate(fs):
            if f.get("capture"):
                continue
            if (len(fs) > 1 or d["k"] == "enum") and not any(g.get("at") is not None for g in fs):
                c, e = new()
                del fields_of(e)[gi][i]
                if not fields_of(e)[gi] and d["k"] == "enum":
                    e["variants"][gi]["unit"] = True
                    e["variants"][gi].pop("tuple", None)
                for v in ([e["variants"][gi]] if d["k"] == "enum" else []):
                    v.pop("enf_bits", None)
                    v.pop("fill", None)
                yield c
            for k in ("split", "aorder", "doc", "sp", "endian", "read_only", "reserve"):
                if f.get(k) and not (k == "read_only" and f.get("overlap")):
                    c, e = new()
                    del fields_of(e)[gi][i][k]
                    yield c
            a = f.get("arr")
            if a and f.get("at") is None and a["mode"] == "el":
                c, e = new()
                del fields_of(e)[gi][i]["arr"]
                yield c
                if a["n"] > 1:
                    c, e = new()
                    fields_of(e)[gi][i]["arr"]["n"] = a["n"] - 1
                    yield c
            if f["t"]["k"] in "se" and not a and f.get("at") is None:
                n = model.field_bits(f)
                if n <= 128:
                    c, e = new()
                    w = min(x for x in (8, 16, 32, 64, 128) if x >= n)
                    fields_of(e)[gi][i].update(t={"k": "u", "w": w}, len=n, how="bit")
                    yield c


def prune(item):
    import gen
    used = set()
    for d in reversed(item["decls"]):
        if d is item["decls"][-1] or d["name"] in used:
            used.update(gen.refs(d))
    item["decls"] = [d for d in item["decls"][:-1] if d["name"] in used] + [item["decls"][-1]]
    return item


def text(item):
    return emit.decls_text(item)


def shrink(run, pf, item, check, msg, case, budget=90):
    t0 = time.time()
    item = prune(copy.deepcopy(item))
    b = run.batch(pf["feats"]) if pf.get("defaults", True) else run.batch(pf["feats"], False, profiles.glue(pf["feats"], False))
    seen = {text(item)}
    while time.time() - t0 < budget:
        cs = []
        for c in candidates(item):
            try:
                c = prune(c)
                t = text(c)
                # enforcement no longer fits once something was removed
                if t not in seen and all(model.fits(d) for d in c["decls"]):
                    seen.add(t)
                    emit.item_text(c, "m", b.feats)
                    cs.append(c)
            except Exception:
                continue
        if not cs:
            break
        its = [(f"k{i}", c) for i, c in enumerate(cs)]
        parts = [p for p in (its[i::8] for i in range(8)) if p]

        def one(p):
            binary, bad = b.compile(p)
            rows = b.run(binary, max(pf["cases"], 100), 1, [check] if check not in ("compile", "benum") else []) if binary and check != "compile" else []
            return bad, rows
        good = []
        for bad, rows in build.pool(one, parts):
            if check == "compile":
                good += [(k, m, None) for k, m in bad.items() if alike(m, msg)]
            for row in rows:
                if "fail" in row and row["check"] == check:
                    good.append((row["decl"].split(".")[0], row["fail"], row["case"]))
        if not good:
            break
        by = dict(its)
        k, msg, case = min(good, key=lambda g: (len(text(by[g[0]])), g[0]))
        item = by[k]
    return item, msg, case


def alike(a, b):
    f = lambda m: "".join(ch for ch in m[:40] if not ch.isdigit())
    return f(a) == f(b)
