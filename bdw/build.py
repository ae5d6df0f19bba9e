"""Builds /repo's crates, the runtime and generated crates; runs the generated programs."""
import hashlib, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BDW_REPO", "/repo")
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
JOBS = int(os.environ.get("BDW_JOBS", "8"))


class ToolFailure(Exception):
    """the machinery, not the code under test, failed"""


class RepoBuildFailure(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def workdir(tag):
    d = os.path.join(VERIF, "build", f"{tag}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


DERIVE = """[package]
name = "bondrewd-derive"
version = "0.4.2"
edition = "2021"
[lib]
proc-macro = true
path = "{repo}/bondrewd-derive/src/lib.rs"
[dependencies]
proc-macro2 = "^1.0"
quote = "^1.0"
syn = "^1.0"
convert_case = "^0.6"
[features]
default = ["part_eq_enums"]
dyn_fns = []
hex_fns = []
part_eq_enums = []
"""
BOND = """[package]
name = "bondrewd"
version = "0.2.1"
edition = "2021"
[lib]
path = "{repo}/bondrewd/src/lib.rs"
[dependencies]
bondrewd-derive = {{ path = "../bondrewd-derive", optional = true, default-features = {defaults} }}
[features]
default = ["std"]
derive = ["bondrewd-derive"]
dyn_fns = ["bondrewd-derive/dyn_fns"]
hex_fns = ["bondrewd-derive/hex_fns"]
std = []
"""
FOREIGN = """[package]
name = "foreign"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
path = "{verif}/foreign/lib.rs"
"""
TOP = """[workspace]
members = ["bondrewd", "bondrewd-derive", "foreign", "all"]
resolver = "2"
[profile.dev]
debug = 0
opt-level = 1
debug-assertions = true
overflow-checks = true
[profile.dev.build-override]
opt-level = 1
overflow-checks = {checked}
debug-assertions = {checked}
"""
ALL = """[package]
name = "all"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[dependencies]
bondrewd = {{ path = "../bondrewd", default-features = false, features = {feats} }}
foreign = {{ path = "../foreign" }}
{rt}
"""


def libs(root, name, feats=("std", "derive"), defaults=True, rt=True, checked=True):
    """compiles the crates once; returns (deps dir, {crate: rlib}). checked: the derive macro's own arithmetic panics
    when it overflows, as it does where users build with the dev profile; with the release profile it does not"""
    d = os.path.join(root, name)
    for p, t in (("bondrewd-derive/Cargo.toml", DERIVE.format(repo=REPO)),
                 ("bondrewd/Cargo.toml", BOND.format(repo=REPO, defaults=str(defaults).lower())),
                 ("foreign/Cargo.toml", FOREIGN.format(verif=VERIF)),
                 ("Cargo.toml", TOP.format(checked=str(checked).lower())),
                 ("all/Cargo.toml", ALL.format(feats=json.dumps(list(feats)), rt=f'rt = {{ path = "{VERIF}/rt" }}' if rt else "")),
                 ("all/lib.rs", "")):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        with open(os.path.join(d, p), "w") as f:
            f.write(t)
    target = os.path.join(root, "target")     # shared: only what differs between configurations is built again
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "all", "--message-format=json"], cwd=d, env=dict(env(), CARGO_TARGET_DIR=target),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    out = {}
    repo_err = None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for fn in m["filenames"]:
                if fn.endswith((".rlib", ".so")):
                    out[n] = fn
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            if "bondrewd" in m.get("package_id", "") and "rt#" not in m.get("package_id", ""):
                repo_err = repo_err or m["message"].get("rendered") or m["message"]["message"]
    if r.returncode != 0:
        if repo_err:
            raise RepoBuildFailure(repo_err)
        raise ToolFailure(f"cargo build failed:\n{r.stderr[-4000:]}")
    return os.path.join(target, "debug/deps"), out


def rustc(src, out, deps, crates, opt=0, emit="link", extra=(), bootstrap=False):
    """returns (ok, [(line_start, line_end, code, message)], stderr)"""
    cmd = ["rustc", "--edition=2021", "--crate-type=bin" if emit == "link" else "--crate-type=lib", "--cap-lints=allow", "-A", "warnings",
           f"--emit={emit}", "-o", out, "-L", "dependency=" + deps, "--error-format=json", f"-Copt-level={opt}", "-Cdebug-assertions=on",
           "-Coverflow-checks=on", "-Cdebuginfo=0", "-Ccodegen-units=8", "-Zunstable-options" if False else "-Cincremental=" ][:-1]
    for c in ("bondrewd", "rt", "foreign"):
        if c in crates:
            cmd += ["--extern", f"{c}={crates[c]}"]
    cmd += list(extra) + [src]
    e = dict(env(), RUSTC_BOOTSTRAP="1") if bootstrap else env()
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    errs = []
    other = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            other.append(line)
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        spans = m.get("spans", [])
        # follow macro expansions out to this file
        lines = []
        for s in spans:
            lines += _own(s, src)
        errs.append((lines, (m.get("code") or {}).get("code"), m.get("message", "")))
    return r.returncode == 0, errs, "\n".join(other), r.returncode


def _own(s, src):
    out = []
    while s:
        if os.path.basename(s.get("file_name", "")) == os.path.basename(src):
            out.append((s["line_start"], s["line_end"]))
        exp = s.get("expansion")
        s = exp["span"] if exp else None
    return out


def pool(f, xs):
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        return list(ex.map(f, xs))
