"""Parts of checks which are not plain profiles: regression declarations, accept/reject pairs, feature sets."""
import json, os, random, re, time
import build, emit, engine, gen, known, mutate, profiles

PINS = os.path.join(build.VERIF, "pins.json")


def pins(run):
    """declarations on which a repaired defect showed"""
    if not os.path.exists(PINS):
        return
    groups = {}
    n = 0
    for i, p in enumerate(json.load(open(PINS))):
        if run.prop not in p["properties"]:
            continue
        n += 1
        if "pair" in p:
            bad = one_pair(run, p["pair"], tuple(p["feats"]))
            run.evaluations += 1
            if bad:
                run.failures.append((f"pin{i}", {"pair": True, "feats": p["feats"]}, p["pair"], "pair", bad, None))
            continue
        groups.setdefault((tuple(p["feats"]), tuple(p["checks"]), p.get("no_std", False)), []).append((f"pin{i}", p["item"]))
    for (feats, checks, no_std), items in sorted(groups.items()):
        if no_std:
            bad = compile_decls(run, feats, items, head=NO_STD)
            fails = [(k, "compile", m, None) for k, m in bad.items() if m]
            run.evaluations += len(items)
        else:
            fails = None
        pf = {"feats": feats, "checks": list(checks), "cases": 200, "tag": "pin", "no_std": no_std}
        run.add(pf, dict(items), run.explore(pf, items, 200) if fails is None else fails)
    run.notes["regression_declarations"] = n


def source_compiles(run, source, feats, defaults=True):
    deps, crates = run.lib(feats, defaults)
    base = os.path.join(run.root, "src")
    with open(base + ".rs", "w") as f:
        f.write(source)
    ok, errs, other, rc = build.rustc(base + ".rs", base + ".rmeta", deps, crates, emit="metadata")
    return ok


STD = "#![allow(warnings)]\n"
NO_STD = "#![no_std]\n#![allow(warnings)]\n"


def module(key, item):
    return f"mod {key} {{\n" + emit.decls_text(item) + "}\n"


def compile_decls(run, feats, items, head=STD, defaults=True):
    """only the declarations, type checked: {key: None or why it was rejected}"""
    deps, crates = run.lib(feats, defaults)
    out = {}

    def one(part):
        left = list(part)
        res = {}
        n = 0
        while left:
            n += 1
            base = os.path.join(run.root, f"d{part[0][0]}_{n}")
            text, line, where = head, head.count("\n") + 1, []
            for k, it in left:
                t = module(k, it)
                where.append((k, line, line + t.count("\n") - 1))
                line += t.count("\n")
                text += t
            with open(base + ".rs", "w") as f:
                f.write(text)
            ok, errs, other, rc = build.rustc(base + ".rs", base + ".rmeta", deps, crates, emit="metadata")
            if ok:
                res.update((k, None) for k, _ in left)
                break
            hit = {}
            for lines, code, msg in errs:
                for a, b in lines:
                    for k, x, y in where:
                        if x <= a <= y:
                            hit.setdefault(k, f"{code or 'error'}: {msg}")
            if not hit:
                if len(left) == 1:
                    if rc == 101 or "panicked" in other or errs:
                        res[left[0][0]] = "compiler failed: " + (errs[0][2] if errs else other[-300:])
                        break
                    raise build.ToolFailure(f"rustc failed without a reason (exit {rc}): {other[-1500:]}")
                h = len(left) // 2
                res.update(one(left[:h]))
                res.update(one([(k, i) for k, i in left[h:]]))
                break
            res.update(hit)
            left = [(k, i) for k, i in left if k not in hit]
        return res
    k = 8
    for r in build.pool(one, [p for p in (items[i::k] for i in range(k)) if p]):
        out.update(r)
    return out


# ------------------------------------------------------------------ pairs
def pair_text(p):
    return "// accepted\n" + known.text(p["good"]) + "// to be rejected: " + p["kind"] + "\n" + known.text(p["bad"])


def one_pair(run, pair, feats):
    """what is wrong with the pair, or None"""
    res = compile_decls(run, feats, [("good", pair["good"]), ("bad", pair["bad"])])
    if res["good"]:
        return "the valid declaration is rejected: " + res["good"]
    if not res["bad"]:
        return f"a declaration with a contradiction ({pair['kind']}) is accepted"
    return None


def pairs(run, tag, names, pf, n):
    """n pairs for each contradiction"""
    r = random.Random(f"{run.seed}/{run.prop}/{tag}")
    out = []
    for name in names:
        got, tries = 0, 0
        while got < n and tries < n * 40:
            tries += 1
            kind = "benum" if name == "benum_text" else "enum" if name in ENUM_ONLY or (name not in STRUCT_ONLY and r.random() < 0.3) else "struct"
            o = dict(pf["opts"])
            if kind == "enum":
                o["lsb0"] = 0
            if name in ("primitive", "wrong_primitive"):
                o["prim"] = 0.6
            if name == "struct_size":
                o["nest"] = 0.7
            if name in ("array_not_divided", "array_conflict", "block_too_short"):
                o["arr"] = 0.7
            item = gen.gen_item(r, o, kind)
            bad = mutate.apply(name, item, r)
            if bad is None or known.text(bad) == known.text(item):
                continue
            out.append({"good": item, "bad": bad, "kind": name})
            got += 1
    return out


ENUM_ONLY = {"overlap_id", "capture_bad", "id_twice", "id_too_big", "two_ids", "id_not_a_number", "too_few_id_bits", "no_id_length", "bad_id_length",
             "two_catch_alls", "payload_too_small", "sizes_disagree", "empty_enum", "enforce_enum"}
STRUCT_ONLY = {"capture_in_struct", "unit_or_union", "fill_too_small", "fill_bad", "enforce_bytes", "enforce_full"}


def check_pairs(run, ps, feats):
    items = []
    for i, p in enumerate(ps):
        items += [(f"g{i}", p["good"]), (f"b{i}", p["bad"])]
    # accepted and rejected ones apart: a crate with errors in it does not get through all phases
    good = compile_decls(run, feats, [x for x in items if x[0][0] == "g"])
    bad = compile_decls(run, feats, [x for x in items if x[0][0] == "b"])
    fails = []
    kinds = {}
    seen = set()
    for i, p in enumerate(ps):
        run.evaluations += 1
        t = pair_text(p)
        if t not in seen:
            seen.add(t)
            run.nontrivial += 1
        kinds[p["kind"]] = kinds.get(p["kind"], 0) + 1
        run.count(p["good"])
        if good[f"g{i}"]:
            fails.append((p, "the valid declaration is rejected: " + good[f"g{i}"]))
        elif not bad[f"b{i}"]:
            fails.append((p, f"a declaration with a contradiction ({p['kind']}) is accepted"))
        elif i % 97 == 5 and len(t) < 900:
            run.samples.append({"accepted": known.text(p["good"]), "rejected": known.text(p["bad"]), "contradiction": p["kind"], "reason_given": bad[f"b{i}"][:200]})
    run.notes.setdefault("pairs_by_contradiction", {}).update(dict(sorted(kinds.items())))
    return fails


def shrink_pair(run, p, msg, feats, budget=60):
    import shrink
    t0 = time.time()
    best, best_msg = p, msg
    while time.time() - t0 < budget:
        cs = []
        for c in shrink.candidates(best["good"]):
            try:
                c = shrink.prune(c)
                for s in range(3):
                    b = mutate.apply(p["kind"], c, random.Random(s))
                    if b is not None:
                        cs.append({"good": c, "bad": b, "kind": p["kind"]})
            except Exception:
                continue
        cs = [c for c in cs if len(pair_text(c)) < len(pair_text(best))]
        if not cs:
            break
        its = [(f"g{i}", c["good"]) for i, c in enumerate(cs)], [(f"b{i}", c["bad"]) for i, c in enumerate(cs)]
        g, b = compile_decls(run, feats, its[0]), compile_decls(run, feats, its[1])
        accepted = "accepted" in msg
        ok = [c for i, c in enumerate(cs) if (accepted and not g[f"g{i}"] and not b[f"b{i}"]) or (not accepted and g[f"g{i}"])]
        if not ok:
            break
        best = min(ok, key=lambda c: len(pair_text(c)))
    return best, one_pair(run, best, feats) or best_msg


def run_pairs(run, tag, names, opts, n):
    feats = profiles.STD
    ps = pairs(run, tag, names, {"opts": opts}, n)
    fails = check_pairs(run, ps, feats)
    for p, msg in sorted(fails, key=lambda x: len(pair_text(x[0]))):
        if not known.listed_pair(run.prop, p):
            run.failures.append((p["kind"], {"pair": True, "feats": feats}, p, "pair", msg, None))


# ------------------------------------------------------------------ feature sets
# (features, default features of the derive crate): every set the crates let one choose with derive
CONFIGS = [
    (("derive",), True),
    (("std", "derive"), False),
    (("derive", "hex_fns"), True),
    (("derive", "dyn_fns"), True),
    (("std", "derive", "dyn_fns"), False),
    (("derive", "dyn_fns", "hex_fns"), True),
    (("std", "derive", "dyn_fns", "hex_fns"), True),
    (("std", "derive", "hex_fns"), False),
]
BUILD_ONLY = [(), ("std",), ("hex_fns",), ("std", "hex_fns")]
FEATURES = ["encode", "decode", "read", "writes", "consts"]


def feature_items(run, n):
    r = random.Random(f"{run.seed}/{run.prop}/features")
    out = []
    for i in range(n):
        c = r.random()
        o = gen.opts(nest=0.15, prim=0.15, special=0.15, maxf=4)
        if c < 0.55:
            out.append((f"m{i}", gen.gen_item(r, o, "struct")))
        elif c < 0.85:
            o["lsb0"] = 0
            out.append((f"m{i}", gen.gen_item(r, o, "enum")))
        else:
            out.append((f"m{i}", gen.gen_item(r, o, "benum")))
    return out


def errors_source(feats):
    """uses the error types the way applications do: printed, sent between threads, boxed, converted with `?`"""
    types = ([] if "hex_fns" not in feats else ["BitfieldHexError"]) + ([] if "dyn_fns" not in feats else ["BitfieldLengthError"])
    both = len(types) == 2
    types += ["BitfieldHexDynError"] if both else []
    s = NO_STD if "std" not in feats else STD
    s += "pub fn e<T: core::fmt::Display + core::fmt::Debug + Send + Sync + 'static>() {}\n"
    s += "".join(f"pub fn {t.lower()}() {{ e::<bondrewd::{t}>(); }}\n" for t in types)
    if "std" in feats:
        s += "".join(f"pub fn std_{t.lower()}(r: Result<(), bondrewd::{t}>) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {{ Ok(r?) }}\n" for t in types)
    if both:
        s += "".join(f"pub fn to_{t.lower()}(r: Result<(), bondrewd::{t}>) -> Result<(), bondrewd::BitfieldHexDynError> {{ Ok(r?) }}\n" for t in types[:2])
    return s


def feature_sets(run, n, cases):
    for feats, defaults in CONFIGS:
        s = errors_source(feats)
        run.evaluations += 1
        if not source_compiles(run, s, feats, defaults):
            run.failures.append(("errors", {"raw": True}, {"source": s, "feats": list(feats), "defaults": defaults}, "errors",
                                 "the error types can not be used like this: " + s, None))
            return
    for feats in BUILD_ONLY:
        run.lib(feats, True, rt=False)
        run.evaluations += 1
    items = feature_items(run, n)
    by = dict(items)
    for _, it in items:
        run.count(it)
    per = {}
    for feats, defaults in CONFIGS:
        pf = {"feats": feats, "defaults": defaults, "cases": cases, "tag": "features",
              "checks": FEATURES + (["slices", "dynamic"] if "dyn_fns" in feats else []) + (["hexes"] if "hex_fns" in feats else []) + ["ids"]}
        before = run.evaluations
        if "std" not in feats:
            # what is generated is for crates without std
            bad = compile_decls(run, feats, items, NO_STD, defaults)
            fails = [(k, "compile", "in a no_std crate: " + m, None) for k, m in bad.items() if m]
            run.evaluations += len(items)
            run.add(dict(pf, no_std=True), by, fails)
        b = run.batch(feats, defaults, profiles.glue(feats, defaults))
        run.add(pf, by, run.explore(pf, items, cases, b))
        per["+".join(feats) + ("" if defaults else " without default features of the derive crate")] = run.evaluations - before
        if run.failures:
            return
    run.notes["cases_by_feature_set"] = per
    run.notes["feature_sets_only_built"] = ["+".join(f) or "none" for f in BUILD_ONLY]


# ------------------------------------------------------------------ expansions
UNSAFE = re.compile(r"""'"'|"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/|\b(unsafe)\b""", re.S)


def expand(run, feats, items, name):
    """{key: the code of the declarations with what the macros made of them}"""
    deps, crates = run.lib(feats)
    base = os.path.join(run.root, name)
    with open(base + ".rs", "w") as f:
        # what the other derives make of it is not ours
        f.write(re.sub(r"#\[derive\((\w+), [^)]*\)\]", r"#[derive(\1)]", STD + "".join(module(k, it) for k, it in items)))
    ok, errs, other, rc = build.rustc(base + ".rs", base + ".x", deps, crates, emit="metadata", extra=["-Zunpretty=expanded"], bootstrap=True)
    if not os.path.exists(base + ".x"):
        raise build.ToolFailure(f"nothing was expanded (exit {rc}): {errs[:2]} {other[-800:]}")
    text = open(base + ".x").read()
    os.unlink(base + ".x")
    out = {}
    parts = re.split(r"^mod (\w+) \{$", text, flags=re.M)
    for k, body in zip(parts[1::2], parts[2::2]):
        out[k] = body
    lost = [k for k, _ in items if k not in out]
    if lost:
        raise build.ToolFailure(f"the expansion has no module {lost[0]}")
    return out


def unsafe_code(text):
    return any(m[1] for m in UNSAFE.finditer(text))


def expansion_fails(run, feats, items, times):
    """[(key, check, message)]: every declaration is expanded several times, in other processes and among other declarations"""
    def one(job):
        n, part = job
        return n, expand(run, feats, part, f"x{'_'.join(feats)}_{n}")
    jobs = []
    for t in range(times):
        its = list(items)
        random.Random(f"{run.seed}/{t}").shuffle(its)
        if t == 0:
            its = list(items)
        k = max(4, -(-len(its) // 60))
        jobs += [(f"{t}_{i}", p) for i, p in enumerate(p for p in (its[i::k] for i in range(k)) if p)]
    first, fails = {}, []
    for n, got in sorted(build.pool(one, jobs)):
        for k, text in got.items():
            run.evaluations += 1
            if unsafe_code(text):
                fails.append((k, "unsafe", "the generated code has an unsafe block or function in it"))
            if k not in first:
                first[k] = text
            elif first[k] != text:
                a, b = first[k].split("\n"), text.split("\n")
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)) - 1)
                fails.append((k, "expansion", f"expanded again it is other code: {a[i].strip()[:150]!r}, then {b[i].strip()[:150]!r}"))
    run.nontrivial += len(set(first.values()))
    return fails


def expansions(run, n, times):
    for feats in (profiles.ALL, profiles.STD):
        items = feature_items(run, n)
        by = dict(items)
        for _, it in items:
            run.count(it)
        # expansions of what is not accepted are of no interest
        bad = compile_decls(run, feats, items)
        pf = {"feats": feats, "tag": "expansion", "cases": 0, "checks": []}
        run.add(pf, by, [(k, "compile", m, None) for k, m in bad.items() if m])
        items = [x for x in items if not bad[x[0]]]
        run.add(pf, by, [(k, c, m, None) for k, c, m in expansion_fails(run, feats, items, times)])
        if run.failures:
            return
    for k, it in items[:3]:
        run.samples.append({"declaration": known.text(it)})
    run.notes["expansions_of_each_declaration"] = times


def extra(run):
    k = 1 if run.tier == "quick" else 8
    if run.prop == "C11":
        run_pairs(run, "enforce", [f.__name__ for f in mutate.ENFORCE], gen.opts(maxf=4, special=0.25, fill=0.4, nest=0.1, prim=0.1, bits=0.15), 160 * k)
    elif run.prop == "C12":
        o = gen.opts(maxf=4, nest=0.1, prim=0.1, perm=0.0, special=0.15, enforce=0.1)
        run_pairs(run, "pairs", [f.__name__ for f in mutate.FIELDS], o, 60 * k)
        if not run.failures:
            run_pairs(run, "primitive enums", [f.__name__ for f in mutate.BENUM], o, 400 * k)
    elif run.prop == "C22":
        feature_sets(run, 160 * k, 40)
    elif run.prop == "C25":
        expansions(run, 400 * k, 4)
