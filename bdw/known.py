"""Genuine defects which are recorded and not repaired (known_findings.json)."""
import json, os
import build, emit

PATH = os.path.join(build.VERIF, "known_findings.json")


def load():
    if not os.path.exists(PATH):
        return {"findings": [], "fixed": []}
    return json.load(open(PATH))


def text(item):
    return emit.decls_text(item).removeprefix("use bondrewd::*;\n")


def listed(prop, item, check, msg):
    return any(f["property"] == prop and f["check"] == check and "item" in f and text(f["item"]) == text(item) for f in load()["findings"])


def listed_pair(prop, pair):
    return any(f["property"] == prop and "pair" in f and text(f["pair"]["bad"]) == text(pair["bad"]) for f in load()["findings"])


def check(run):
    """says which of the listed findings still fail"""
    for f in load()["findings"]:
        if f["property"] != run.prop:
            continue
        if "pair" in f:
            import special
            if special.one_pair(run, f["pair"], tuple(f["feats"])):
                run.found.append(f"KNOWN-FINDING: property={run.prop} {f['what']}")
        elif "item" in f:
            b = run.batch(tuple(f["feats"]))
            binary, bad = b.compile([("known", f["item"])])
            rows = b.run(binary, 200, 1, [f["check"]]) if binary and f["check"] != "compile" else []
            if (bad if f["check"] == "compile" else any("fail" in r for r in rows)):
                run.found.append(f"KNOWN-FINDING: property={run.prop} {f['what']}")
        else:
            import special
            if special.source_compiles(run, f["source"], tuple(f["feats"])) != f["compiles_when_fixed"]:
                run.found.append(f"KNOWN-FINDING: property={run.prop} {f['what']}")
