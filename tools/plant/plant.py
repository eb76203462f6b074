#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from bugs.py and tries it out. plant.py [--make] [--check] [id ...]
--make: patch, demo and meta files, and confirm them in a scratch copy of /repo (compiles, tests pass, demo
passes without and fails with the patch, original lines are touched).
--check: apply each to /repo, run the check of its property, undo. PLANT_REPO and PLANT_CHECKS name copies of /repo and
/verif (with their paths rewritten) to use instead."""
import json, os, re, shutil, subprocess, sys, tempfile
root = "/verif"; repo = os.environ.get("PLANT_REPO", "/repo"); checks = os.environ.get("PLANT_CHECKS", root)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
ORIG = "cd054c0"
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly")
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(b, copy):
    i = b["id"]; d = f"{root}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- . && git clean -fdq -e target -e .target", copy)
    touched = False
    for f, old, new in b["edits"]:
        p = f"{copy}/projects/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches of {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", copy).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    # original lines?
    f = None; n = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            bl = sh(f"git blame -L{n},{n} -s HEAD -- {f}", copy).stdout
            if bl.startswith("^") or bl.startswith(ORIG): touched = True
            n += 1
        elif l.startswith("+"): pass
        else: n += 1
    if not touched: return "touches no original line"
    kind = b["kind"]
    shutil.copy(f"{here}/demo_{kind}.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy(f"{root}/harness/{kind}/Cargo.lock", f"{d}/lock")
    if kind == "ast" and not os.path.exists(f"{d}/deps.tar.gz"):
        sh(f"tar --sort=name --mtime=@0 --owner=0 --group=0 -cf - vendor shims | gzip -9n > {d}/deps.tar.gz", root)
    pre = "use num::{BigInt, BigUint};\nfn big(s: &str) -> BigInt { s.parse().unwrap() }\n" if kind == "alg" else \
          "use sm_ast::{parser::ParserSettings, Runner, SMError, ToTex, ToWolfram, AST};\nfn parse(s: &str) -> Result<AST, SMError> { ParserSettings::default().parse(s) }\n"
    open(f"{d}/main.rs", "w").write("#![allow(unused)]\n" + pre + "fn main() {\n" + b["demo"].strip("\n") + "\n    println!(\"ok\");\n}\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1); open(f"{d}/meta.json", "a").write("\n")
    r = sh(f"{d}/demo.sh", copy)
    if r.returncode == 0 or "panicked" not in r.stdout and r.returncode == 3: return f"demo with patch: {r.returncode} {r.stdout[-1500:]}"
    why = r.stdout.strip().splitlines()
    ws = os.path.dirname(copy) + "/ws"
    if not os.path.exists(ws):
        os.makedirs(ws + "/projects"); os.symlink(f"{copy}/projects/sm-algorithm", ws + "/projects/sm-algorithm")
        shutil.copy("/opt/vp/ws/Cargo.toml", ws); shutil.copy("/opt/vp/ws/Cargo.lock", ws)
    t = sh("cargo test --workspace --offline", ws)
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
    if t.returncode or passed != 9: return f"tests: {passed} " + t.stdout[-800:]
    sh("git checkout -q -- .", copy)
    r = sh(f"{d}/demo.sh", copy)
    if r.returncode != 0: return f"demo without patch: {r.returncode} {r.stdout[-1500:]}"
    return "ok: " + " ".join(why[:3])[:200]
def check(b):
    i = b["id"]
    assert sh("git status --porcelain", repo).stdout == ""
    r = sh(f"git apply {root}/seeded/{i}/patch.diff", repo)
    if r.returncode: return "does not apply " + r.stdout
    try:
        r = sh(f"./check.sh {b['property']}", checks, timeout=900)
    finally:
        sh("git checkout -- .", repo)
    last = r.stdout.strip().splitlines()
    return f"exit {r.returncode} " + " | ".join(x[:230] for x in last[-3:])
ids = [a for a in sys.argv[1:] if not a.startswith("-") and "/" not in a]
todo = [b for b in BUGS if not ids or b["id"] in ids]
assert len({b["id"] for b in BUGS}) == len(BUGS)
if "--make" in sys.argv:
    copy = tempfile.mkdtemp(prefix="plant-")
    sh(f"git clone -q /repo {copy}/r"); copy += "/r"
    sh(f"cp -a /repo/Cargo.lock {copy}/ 2>/dev/null")
    for b in todo: print(b["id"], make(b, copy), flush=True)
    shutil.rmtree(os.path.dirname(copy))
if "--check" in sys.argv:
    for b in todo: print(b["id"], check(b), flush=True)
if "--table" in sys.argv:
    p = f"{root}/DESIGN.md"; s = open(p).read()
    rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
    res = dict(l.split(" ", 1) for l in open(sys.argv[sys.argv.index("--table") + 1]) if " exit " in l)
    for b in BUGS:
        r = res.get(b["id"], "")
        rows.append(f"| {b['id']} | {b['needs']} | {b['property'] if r.startswith('exit 1') else 'missed' if r else 'not run'} |")
    a, z = s.index("<!-- table -->"), s.index("<!-- end -->")
    open(p, "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[z:])
