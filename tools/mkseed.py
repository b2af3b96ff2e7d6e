#!/usr/bin/env python3
"""Development tool: makes a planted bug from a spec and confirms it.
usage: mkseed.py spec.py   (spec defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS, [KIND])"""
import json, os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(here, "seeded", spec["ID"])
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
kind = spec.get("KIND", "tree")
if kind == "page":
    for f in ("bundle.cjs", "fakecore.mjs", "start.mjs", "demo.sh"):
        shutil.copy(os.path.join(here, "tools", "pageseed", f), out)
    shutil.copy(os.path.join(here, "sim", "page", "js", "dom.mjs"), out)
    open(f"{out}/demo.mjs", "w").write(spec["DEMO"])
else:
    open(f"{out}/demo.rs", "w").write(spec["DEMO"])
if kind == "page":
    pass
elif kind == "tree":
    open(f"{out}/demo.sh", "w").write(r'''#!/bin/bash
# Runs demo.rs against the input_tree crate of the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
input_tree = { path = "$repo/aftermath-core/input_tree" }
serde_json = "1.0"
[workspace]
END
EXTRAcd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run --quiet --offline
'''.replace("EXTRA", "echo '" + spec["CARGO"] + "' >> \"$tmp/Cargo.toml\"\n" if spec.get("CARGO") else ""))
else:
    shutil.copytree(os.path.join(here, "tools", "editor_demo"), f"{out}/support", ignore=shutil.ignore_patterns("target"))
    open(f"{out}/demo.sh", "w").write(open(os.path.join(here, "tools", "editor_demo.sh")).read())
os.chmod(f"{out}/demo.sh", 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
ok = True
try:
    r = sh(f"bash {out}/demo.sh", cwd="/repo"); print("demo clean:", r.returncode, r.stderr[-1500:] if r.returncode else "")
    ok &= r.returncode == 0
    for f, a, b in spec["EDITS"]:
        p = ("/repo/" if kind == "page" else "/repo/aftermath-core/") + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    open(f"{out}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /opt/vp/build.sh"); print("build:", r.returncode, r.stderr[-1500:] if r.returncode else ""); ok &= r.returncode == 0
    r = sh("bash /opt/vp/test.sh /tmp/seeds/out.json"); print("tests:", r.stdout.strip().splitlines()[-1]); ok &= "16 passed, 0 failed" in r.stdout
    r = sh(f"bash {out}/demo.sh", cwd="/repo"); print("demo patched:", r.returncode, r.stderr[-400:]); ok &= r.returncode != 0
    r = sh(f"./check.sh {spec['PROPERTY']} quick", cwd=here); print("check:", r.returncode); print(r.stdout[-900:], r.stderr[-300:])
    print("CAUGHT" if r.returncode == 1 else "MISSED")
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
print("VALID" if ok else "INVALID", spec["ID"])
