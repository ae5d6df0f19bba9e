#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree
check.py replay FILE                    run one recorded failure again

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the machinery failed.
"""
import json, os, random, shutil, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "bdw"))
import build, engine, emit, gen, harvest, model, profiles, shrink, special, known
from build import ToolFailure, RepoBuildFailure

SEED = int(os.environ.get("VERIF_SEED", "1"))


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, SEED
        self.t0 = time.time()
        self.root = build.workdir(f"{prop}-{tier}")
        self.libs = {}
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.classes = {}
        self.per_check = {}
        self.notes = {}
        self.failures = []       # (key, profile-like dict, item, check, message, case)
        self.found = []          # lines for known findings

    def lib(self, feats, defaults=True, rt=True):
        k = (tuple(feats), defaults, rt)
        if k not in self.libs:
            self.libs[k] = build.libs(os.path.join(self.root, "libs"), "_".join(feats) + ("" if defaults else "_nd") + ("" if rt else "_nort"), feats, defaults, rt,
                                      checked=self.prop != "C12")
        return self.libs[k]

    def batch(self, feats, defaults=True, glue=None):
        deps, crates = self.lib(feats, defaults)
        return engine.Batch(self.root, deps, crates, profiles.glue(feats) if glue is None else glue)

    def count(self, item):
        for c in gen.classes(item):
            self.classes[c] = self.classes.get(c, 0) + 1

    def items(self, pf, n):
        r = random.Random(f"{SEED}/{self.prop}/{pf['tag']}")
        if pf["kind"] == "sweep":
            out, left = gen.sweep(r, pf["opts"], n)
            self.notes.setdefault("combinations_of_type_bits_and_offset_left_out", {})[pf["tag"]] = left
            return [(f"{pf['tag']}{i}", it) for i, it in enumerate(out)]
        if pf["kind"] == "huge":
            return [(f"{pf['tag']}{i}", gen.huge(r, pf["opts"], pf["main"], i)) for i in range(n)]
        return [(f"{pf['tag']}{i}", gen.gen_item(r, pf["opts"], pf["kind"])) for i in range(n)]

    def explore(self, pf, items, cases, batch=None, seed=SEED):
        """compile and run; returns the failing (key, check, message, case)"""
        b = batch or self.batch(pf["feats"])
        k = max(8, -(-len(items) // 40))
        parts = [p for p in (items[i::k] for i in range(k)) if p]
        by = dict(items)

        def one(p):
            binary, bad = b.compile(p)
            rows = b.run(binary, cases, seed, pf["checks"]) if binary else []
            if binary:
                os.unlink(binary)
            return bad, rows
        out = []
        for bad, rows in build.pool(one, parts):
            for key, m in bad.items():
                out.append((key, "compile", m, None))
            for row in rows:
                self.evaluations += row["cases"]
                self.nontrivial += row["nontrivial"]
                c = self.per_check.setdefault(row["check"], [0, 0])
                c[0] += 1
                c[1] += row["cases"]
                key = row["decl"].split(".")[0]
                if "fail" in row or "abort" in row:
                    out.append((key, row["check"], row.get("fail") or row.get("abort"), row.get("case")))
                elif len(self.samples) < 60 and len(row["sample"]) < 400 and hash_mod(row["decl"] + row["check"], 7) == 0:
                    self.samples.append({"declaration": emit.decl_text(by[key]["decls"][-1]), "check": row["check"], "one_case": row["sample"]})
        return out

    def profile(self, pf, scale=1):
        n = pf["n"] * scale
        items = self.items(pf, n)
        # in slices, so that a thorough run does not hold everything at once
        for a in range(0, n, 1600):
            part = items[a:a + 1600]
            for _, it in part:
                self.count(it)
            by = dict(part)
            fails = self.explore(pf, part, pf["cases"] * (2 if scale > 1 else 1))
            self.add(pf, by, fails)
            if self.failures:
                return

    def add(self, pf, by, fails):
        for key, check, msg, case in sorted(fails, key=lambda f: (size(by[f[0]]), f[0], f[1])):
            if not known.listed(self.prop, by[key], check, msg):
                self.failures.append((key, pf, by[key], check, msg, case))

    # ------------------------------------------------------------ results
    def evidence(self, violations):
        r = random.Random(SEED)
        s = self.samples if len(self.samples) <= 4 else r.sample(self.samples, 4)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.nontrivial,
            "rule": RULE.get(self.prop, RULE["default"]),
            "samples": s,
            "declarations_by_class": dict(sorted(self.classes.items())),
            "declarations_and_cases_by_check": {k: {"declarations": v[0], "cases": v[1]} for k, v in sorted(self.per_check.items())},
        }
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


RULE = {
    "default": ("A case is a generated declaration, a generated value of it, a generated byte array and a generated sequence of "
                "writes, given to one check. Declarations come from a seeded grammar, cases from proptest. A case counts as "
                "non-trivial when a field value is neither all zeroes nor all ones or a byte of the array is neither 0x00 nor "
                "0xFF, and only the first time it occurs for its declaration and check."),
    "C12": ("A case is a pair of declarations, one valid and one which differs from it by a single contradiction; the first must "
            "compile and the second must not. Every pair is non-trivial; pairs with equal text are counted once."),
    "C25": ("A case is one expansion of a generated declaration, in a process of its own order of declarations. Distinct expansions "
            "are counted; every one is non-trivial."),
    "C20": ("A case is a generated primitive enum and one primitive value; for u8 all 256 values are tried for every enum. Distinct values per enum are counted."),
}
ASSUME = ["The reference layout (bdw/model.py) is read off the documentation and confirmed by the existing tests",
          "Declarations outside of the generated grammar (tuple structs, nested arrays, unions, generics) are not explored"]


def size(item):
    return sum(len(emit.decl_text(d)) for d in item["decls"])


def hash_mod(s, n):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xFFFFFFFF
    return h % n


def write_replay(run, data):
    d = os.path.join(HERE, "build", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{run.prop}-{SEED}-{hash_mod(json.dumps(data, sort_keys=True), 1000000)}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def report(run):
    """shrinks the first failure, writes the replay file, prints the line"""
    key, pf, item, check, msg, case = run.failures[0]
    if pf.get("pair"):
        try:
            item, msg = special.shrink_pair(run, item, msg, tuple(pf["feats"]))
        except Exception:
            traceback.print_exc()
        data = {"property": run.prop, "kind": "pair", "pair": item, "text": special.pair_text(item), "message": msg, "feats": list(pf["feats"])}
        text = special.pair_text(item)
    elif pf.get("raw"):
        data = {"property": run.prop, "kind": "raw", "raw": item, "message": msg}
        text = json.dumps(item)[:600]
    else:
        try:
            if pf["tag"] == "expansion" and check != "compile":
                item = shrink.prune(item)
            elif pf.get("no_std"):
                raise NotImplementedError("declarations of no_std crates are not shrunk")
            else:
                item, msg, case = shrink.shrink(run, pf, item, check, msg, case)
        except Exception:
            traceback.print_exc()
        text = "".join(emit.decl_text(d) for d in item["decls"])
        data = {"property": run.prop, "kind": "item", "item": item, "declaration": text, "check": check, "message": msg, "case": case,
                "feats": list(pf["feats"]), "defaults": pf.get("defaults", True), "no_std": pf.get("no_std", False), "others_failing": len(run.failures) - 1}
    path = write_replay(run, data)
    print(text)
    print(f"{check}: {msg}")
    print(f"VIOLATION property={run.prop} replay={path}")


def replay(path):
    data = json.load(open(path))
    run = Run(data["property"], "quick")
    try:
        if data["kind"] == "pair":
            bad = special.one_pair(run, data["pair"], tuple(data["feats"]))
            print(bad or "held")
            return 1 if bad else 0
        if data["kind"] == "raw" and "source" in data["raw"]:
            x = data["raw"]
            ok = special.source_compiles(run, x["source"], tuple(x["feats"]), x["defaults"])
            print("held: it compiles" if ok else "does not compile")
            return 0 if ok else 1
        if data["kind"] == "raw":
            print(data["message"])
            return 2
        if data.get("no_std"):
            bad = special.compile_decls(run, tuple(data["feats"]), [("m0", data["item"])], special.NO_STD, data["defaults"])["m0"]
            print(bad or "held: it compiles")
            return 1 if bad else 0
        if data["check"] in ("expansion", "unsafe"):
            fails = special.expansion_fails(run, tuple(data["feats"]), [("m0", data["item"])], 20)
            print(fails[0][2] if fails else "held")
            return 1 if fails else 0
        d = data.get("defaults", True)
        b = run.batch(tuple(data["feats"]), d, profiles.glue(tuple(data["feats"]), d))
        binary, bad = b.compile([("m0", data["item"])])
        if bad:
            print("does not compile:", bad)
            return 1 if data["check"] == "compile" else 2
        if data["check"] == "compile":
            print("held: it compiles")
            return 0
        import subprocess
        name = "m0." + data["item"]["decls"][-1]["name"]
        if data["case"] is None:
            return 2
        out = subprocess.run([binary, "replay", name, data["check"], str(data["case"])], stdout=subprocess.PIPE, text=True).stdout
        print(out.strip())
        return 1 if out.startswith("broken") else 0
    finally:
        run.close()


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = Run(prop, tier)
    try:
        try:
            known.check(run)
            special.pins(run)
            if prop == "C24":
                run.notes["names_used_by_the_generated_code"] = harvest.fill(run, profiles.ALL)
            if not run.failures:
                for pf in profiles.PROFILES.get(prop, []):
                    run.profile(pf, 1 if tier == "quick" else 8)
                    if run.failures:
                        break
            if not run.failures:
                special.extra(run)
        except RepoBuildFailure as e:
            run.failures.append(("build", {"raw": True, "feats": ()}, {"what": "the crate does not build", "error": str(e)[:3000]}, "build",
                                 "Bondrewd does not build in a configuration this property is about", None))
        for line in run.found:
            print(line)
        if run.failures:
            report(run)
            run.evidence(len(run.failures))
            return 1
        if run.evaluations == 0:
            raise ToolFailure("nothing was explored")
        run.evidence(0)
        print(f"held: {prop} {tier} {run.evaluations} cases, {run.nontrivial} distinct non-trivial, {time.time() - run.t0:.1f} s")
        return 0
    finally:
        run.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
