#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py FILE.. ; each FILE (tools/seed/*.seed) holds
#id, #prop, #needs, #breaks headers, then one or more edits
  @@ path
  old text
  ====
  new text
  @@end
and after '%%demo[ crates]' a Rust main.rs: exits 0 on the right tree, nonzero otherwise."""
import sys, os, re, subprocess, shutil, json
V = "/verif"
def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Builds the runner/SDK/circuits of the current directory's tree (/repo) with the stand-ins beside this file and runs main.rs.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
cp -r "$D/kit/." "$T/"
"$T/tools/vendor.sh" || exit 9
cd "$T/harness" || exit 9
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET
[ -d "$T/guest" ] && { timeout 200 "$T/guest/build.sh" "$T/guest/target" || exit 9; export GUEST_DIR="$T/guest/target/riscv32im-mozak-mozakvm-elf/mozak-release"; }
CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline --locked -q -p demo
'''
def kit(dst, deps, main):
    os.makedirs(dst + "/harness/demo/src"); os.makedirs(dst + "/tools")
    shutil.copytree(V + "/shims", dst + "/shims")
    shutil.copytree(V + "/harness/repo", dst + "/harness/repo")
    shutil.copytree(V + "/harness/.cargo", dst + "/harness/.cargo")
    for f in ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml"]: shutil.copy(f"{V}/harness/{f}", dst + "/harness/")
    for f in ["vendor.sh", "vendor.list"]: shutil.copy(f"{V}/tools/{f}", dst + "/tools/")
    members = '"repo/*", "demo"'
    if "guests" in deps:  # guest programs and the code that runs them
        deps = [d for d in deps if d != "guests"] + ["mc"]
        shutil.copytree(V + "/guest", dst + "/guest", ignore=shutil.ignore_patterns("target"))
        shutil.copytree(V + "/harness/mc", dst + "/harness/mc", ignore=shutil.ignore_patterns("target"))
        shutil.copy(V + "/harness/sdk-mc/src/vm.rs", dst + "/harness/demo/src/vm.rs")
        members += ', "mc"'
        main = "#![allow(dead_code, unused)]\nmod vm;\nuse vm::*;\n" + main
    p = dst + "/harness/Cargo.toml"; s = open(p).read()
    s = re.sub(r'members = \[.*?\]', f'members = [{members}]', s) + '\n[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\n'
    open(p, "w").write(s)
    known = {"mozak-runner": '{ path = "../repo/runner", features = ["test"] }', "mozak-sdk": '{ path = "../repo/sdk" }', "plonky2": '{ path = "../../shims/plonky2" }',
        "starky": '{ path = "../../shims/starky" }', "im": '"15.1"', "anyhow": '"1.0"', "itertools": '"0.13"', "mc": '{ path = "../mc" }', "serde_json": '"1.0"', "rkyv": '{ version = "=0.8.0-alpha.1", default-features = false, features = ["pointer_width_32", "alloc", "bytecheck"] }'}
    for d in os.listdir(V + "/harness/repo"): known.setdefault(d.replace("-core", "-core-logic"), f'{{ path = "../repo/{d}" }}')
    for d in os.listdir(V + "/harness/repo"): known.setdefault(f"mozak-{d}", f'{{ path = "../repo/{d}" }}')
    open(dst + "/harness/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + "".join(f"{d} = {known[d]}\n" for d in deps))
    open(dst + "/harness/demo/src/main.rs", "w").write(main)
    # the lock file of the harness, with the demo in place of the checkers
    e = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedlock")
    if not os.path.exists(dst + "/vendor"): os.symlink(V + "/vendor", dst + "/vendor")
    r = run("cargo", "update", "-w", "--offline", cwd=dst + "/harness", env=e)
    os.unlink(dst + "/vendor")
    if r.returncode: print(r.stdout); return False
    return True
def one(f):
    s = open(f).read()
    h = dict(re.findall(r'^#(\w+) (.*)$', s, re.M))
    body, demo = s.split("%%demo", 1)
    head, demo = demo.split("\n", 1)
    deps = head.split()
    d = f"{V}/seeded/{h['id']}"
    w = "/tmp/seedrepo"
    run("rm", "-rf", w); run("git", "clone", "-q", "/repo", w)
    for path, old, new in re.findall(r'^@@ (\S+)\n(.*?)\n====\n(.*?)\n?@@end', body, re.S | re.M):
        t = open(f"{w}/{path}").read()
        if t.count(old) != 1: print(h['id'], "old text occurs", t.count(old), "times in", path); return False
        open(f"{w}/{path}", "w").write(t.replace(old, new))
    diff = run("git", "-C", w, "diff").stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=h['prop'], needs=h['needs'], what_it_breaks=h['breaks']), open(d + "/meta.json", "w"), indent=1)
    if not kit(d + "/kit", deps, demo): return False
    ok = True
    r = run(d + "/demo.sh", cwd="/repo")
    if r.returncode: print(h['id'], "demo fails on the unchanged tree:", r.stdout[-1500:]); ok = False
    assert not run("git", "-C", "/repo", "status", "--short", "-uno").stdout
    run("git", "-C", "/repo", "apply", d + "/patch.diff")
    try:
        r = run(d + "/demo.sh", cwd="/repo")
        if r.returncode == 0: print(h['id'], "demo passes with the change"); ok = False
        else: print(h['id'], "demo with change:", r.stdout.strip().splitlines()[-3:])
        if os.environ.get("TESTS"):
            r = run("bash", "/opt/vp/build.sh"); r2 = run("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
            if r.returncode or r2.returncode: print(h['id'], "build/tests fail", r.returncode, r2.returncode, (r.stdout+r2.stdout)[-800:]); ok = False
        for p in h.get('check', h['prop']).split():
            r = run(V + "/check.sh", p, "quick", cwd=V)
            print(h['id'], p, "->", "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else f"MISSED rc={r.returncode} {r.stdout[-300:]}")
    finally:
        run("git", "-C", "/repo", "checkout", "--", ".")
    return ok
bad = [f for f in sys.argv[1:] if not one(f)]
print("not confirmed:", bad) if bad else print("all confirmed")
