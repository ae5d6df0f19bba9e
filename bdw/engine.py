"""Turns items into crates, compiles and runs them, and collects what they say."""
import json, os, subprocess
import build, emit


class Batch:
    def __init__(self, root, deps, crates, feats, opt=0):
        self.root, self.deps, self.crates, self.feats, self.opt = root, deps, crates, feats, opt
        self.n = 0

    def compile(self, items):
        """items: [(key, item)]. Returns (binary or None, {key: message} for those which do not compile)"""
        bad = {}
        left = list(items)
        while left:
            self.n += 1
            base = os.path.join(self.root, f"c{os.getpid()}_{id(items)}_{self.n}")
            text = "#![allow(warnings)]\n"
            line = 2
            where = []
            mains, emains = [], []
            for key, it in left:
                t, m, em = emit.item_text(it, key, self.feats)
                n = t.count("\n")
                where.append((key, line, line + n - 1))
                line += n
                text += t
                mains += m
                emains += em
            text += f"fn main() {{ rt::main_with(&[{', '.join(mains)}], &[{', '.join(emains)}]); }}\n"
            with open(base + ".rs", "w") as f:
                f.write(text)
            ok, errs, other, rc = build.rustc(base + ".rs", base, self.deps, self.crates, self.opt)
            if ok:
                return base, bad
            hit = {}
            for lines, code, msg in errs:
                for a, b in lines:
                    for key, x, y in where:
                        if x <= a <= y:
                            hit.setdefault(key, []).append(f"{code or 'error'}: {msg}")
            if not hit:
                # a panic inside of rustc or a failure to link: look one by one
                if len(left) == 1:
                    if rc == 101 or "panicked" in other or errs:
                        bad[left[0][0]] = "compiler failed: " + (errs[0][2] if errs else other[-300:])
                        return None, bad
                    raise build.ToolFailure(f"rustc failed without a reason (exit {rc}): {other[-1500:]}")
                half = len(left) // 2
                for part in (left[:half], left[half:]):
                    _, b = self.compile(part)
                    bad.update(b)
                if not any(k in bad for k, _ in left):
                    raise build.ToolFailure(f"rustc failed on a batch but not on its halves: {errs[:2]} {other[-1500:]}")
            else:
                for k, ms in hit.items():
                    bad[k] = "; ".join(dict.fromkeys(ms[:3]))
            left = [(k, i) for k, i in left if k not in bad]
        return None, bad

    def run(self, binary, cases, seed, checks, timeout=600):
        r = subprocess.run([binary, str(cases), str(seed), ",".join(checks)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        out = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
        if r.returncode != 0:
            raise build.ToolFailure(f"generated program ended with {r.returncode}: {r.stderr[-500:]}")
        return out
