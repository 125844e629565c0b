#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/plants/<id>.txt.

plant.py make <id>...   write seeded/<id> (patch.diff, demo and meta.json)
A spec has 'property:' and 'file:' lines, then sections opened by '--- old', '--- new' (any number of
pairs, each old text occurring exactly once in the last 'file'), '--- needs', '--- breaks' and '--- demo'
(the Rust demonstration, compiled with kit.rs). 'needs-stub: feature' lines are not needed: all demos get
the same stand-ins.
"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def parse(path):
    spec = {"edits": []}
    section, buf, cur = None, [], None
    def close():
        nonlocal section, buf, cur
        text = "\n".join(buf)
        if section == "old":
            cur = text
        elif section == "new":
            spec["edits"].append((spec["file"], cur, text))
        elif section:
            spec[section] = text.strip("\n") + "\n"
        section, buf = None, []
    for line in open(path).read().split("\n"):
        m = re.match(r"--- (old|new|needs|breaks|demo|node)$", line)
        f = re.match(r"(property|file): (\S+)$", line) if section in (None, "new") else None
        if m:
            close()
            section = m.group(1)
        elif f:
            if section:
                close()
            spec[f.group(1)] = f.group(2)
        elif section:
            buf.append(line)
    close()
    return spec

DEMO_SH = """#!/bin/bash
# Run in the repository: exit 0 if it behaves, nonzero if not. Writes only to a directory of its own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/demo/.cargo" "$work/data"
cp -r "$here/standins" "$work/standins"
cp "$here/demo.rs" "$work/demo/src/main.rs"
cp "$here/kit.rs" "$work/demo/src/kit.rs"
cp "$here/cargo_lock" "$work/demo/Cargo.lock"
cp "$here/cargo_config" "$work/demo/.cargo/config.toml"
sed "s#@REPO@#$repo#" "$here/cargo_manifest" >"$work/demo/Cargo.toml"
export CARGO_TARGET_DIR="${CARMEN_DEMO_TARGET:-$work/target}" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings --cfg carmen_verif"
cd "$work/demo" || exit 3
cargo build --offline --locked -q >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 4; }
DEMO_DIR="$work/data" CARMEN_REPO="$repo" timeout 120 "$CARGO_TARGET_DIR/debug/carmen-verif"
"""

NODE_SH = """#!/bin/bash
# Run in the repository: exit 0 if it behaves, nonzero if not. Writes only to a directory of its own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/.cargo" "$work/data"
cp -r "$here/standins" "$work/standins"
cp -r "$here/native-standins" "$work/demo/native-standins"
cp "$here/cargo_lock" "$work/demo/Cargo.lock"
cp "$here/cargo_config" "$work/demo/.cargo/config.toml"
sed "s#@REPO@#$repo#" "$here/cargo_manifest" >"$work/demo/Cargo.toml"
export CARGO_TARGET_DIR="${CARMEN_DEMO_TARGET:-$work/target}" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
cd "$work/demo" || exit 3
cargo build --offline --locked -q >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 4; }
DEMO_DIR="$work/data" CARMEN_REPO="$repo" ADDON="$CARGO_TARGET_DIR/debug/libnode_carmen_core.so" timeout 120 node "$here/demo.js"
"""

def make(id):
    spec = parse(os.path.join(here, "tools/plants", id + ".txt"))
    out = os.path.join(here, "seeded", id)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    with tempfile.TemporaryDirectory() as tmp:
        files = sorted({f for f, _, _ in spec["edits"]})
        for f in files:
            for side in "ab":
                os.makedirs(os.path.join(tmp, side, os.path.dirname(f)), exist_ok=True)
            src = open(os.path.join("/repo", f)).read()
            new = src
            for g, o, n in spec["edits"]:
                if g != f:
                    continue
                if new.count(o) != 1:
                    sys.exit("%s: old text occurs %d times in %s:\n%s" % (id, new.count(o), f, o))
                new = new.replace(o, n)
            open(os.path.join(tmp, "a", f), "w").write(src)
            open(os.path.join(tmp, "b", f), "w").write(new)
        diff = "".join(subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout for f in files)
        diff = re.sub(r"^(--- \S+|\+\+\+ \S+)\t.*$", r"\1", diff, flags=re.M)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"].strip().replace("\n", " "),
               "what_it_breaks": spec["breaks"].strip().replace("\n", " ")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    extras = "test_utils" in spec.get("demo", "")
    node = "node" in spec
    open(os.path.join(out, "demo.sh"), "w").write(NODE_SH if node else DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    standins = ["min-max-heap", "morton", "rocksdb", "static-bushes"]
    if node:
        open(os.path.join(out, "demo.js"), "w").write("'use strict';\nconst {carmen, dir, row, assert} = require('./kit.js');\n\n" + spec["node"])
        shutil.copy(os.path.join(here, "tools/plants/kit.js"), os.path.join(out, "kit.js"))
        shutil.copytree(os.path.join(here, "bindings/standins"), os.path.join(out, "native-standins"))
        man = open(os.path.join(here, "bindings/Cargo.toml")).read().replace("/repo", "@REPO@").replace('"standins/', '"native-standins/')
        lock = os.path.join(here, "bindings/Cargo.lock")
        conf = open(os.path.join(here, "bindings/.cargo/config.toml")).read().replace("../vendor", "../standins")
    else:
        open(os.path.join(out, "demo.rs"), "w").write("mod kit;\nuse kit::*;\n\n" + spec["demo"])
        shutil.copy(os.path.join(here, "tools/plants/kit.rs"), os.path.join(out, "kit.rs"))
        man = open(os.path.join(here, "tools/plants/cargo_manifest")).read()
        lock = os.path.join(here, "tools/plants/cargo_lock")
        conf = open(os.path.join(here, "tools/plants/cargo_config")).read()
        if extras:
            standins += ["rusoto_core", "rusoto_s3"]
            man = man.replace('[dependencies]\n', '[dependencies]\ntest_utils = { path = "@REPO@/test_utils" }\nlz4 = "1.23.1"\n')
            lock = os.path.join(here, "tools/plants/cargo_lock_extras")
            conf = open(os.path.join(here, "harness/.cargo/config.toml")).read().replace("../vendor", "../standins")
    for d in standins:
        shutil.copytree(os.path.join(here, "vendor", d), os.path.join(out, "standins", d))
    shutil.copy(lock, os.path.join(out, "cargo_lock"))
    open(os.path.join(out, "cargo_manifest"), "w").write(man)
    open(os.path.join(out, "cargo_config"), "w").write(conf)

if sys.argv[1] == "make":
    for i in sys.argv[2:]:
        make(i)
