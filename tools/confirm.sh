#!/bin/bash
# confirm.sh <scratch dir> <id>...   does each planted bug apply, pass the repository's own tests (all of
# them, built against the stand-ins in vendor/) and fail its demonstration, which passes without it?
here=$(cd "$(dirname "$0")/.." && pwd)
s=$1; shift
mkdir -p "$s"
for id in "$@"; do
    rm -rf "$s/repo"; mkdir -p "$s/repo"
    (cd /repo && git archive HEAD) | tar x -C "$s/repo"
    mkdir -p "$s/repo/.cargo"
    cp "$here/tools/test_config.toml" "$s/repo/.cargo/config.toml"
    cp "$here/tools/test.lock" "$s/repo/Cargo.lock"
    find "$s/repo" -type f -exec touch {} +
    (cd "$s/repo" && CARMEN_DEMO_TARGET="$s/demo-target" bash "$here/seeded/$id/demo.sh") >"$s/$id.good" 2>&1; good=$?
    (cd "$s/repo" && git init -q . 2>/dev/null; git -C "$s/repo" apply "$here/seeded/$id/patch.diff") || { echo "$id DOES NOT APPLY"; continue; }
    (cd "$s/repo" && CARMEN_DEMO_TARGET="$s/demo-target" bash "$here/seeded/$id/demo.sh") >"$s/$id.bad" 2>&1; bad=$?
    (cd "$s/repo" && CARGO_TARGET_DIR="$s/test-target" RUSTFLAGS=-Awarnings cargo test --offline --lib --tests) >"$s/$id.test" 2>&1; t=$?
    passed=$(grep -o '[0-9]* passed' "$s/$id.test" | awk '{s+=$1} END {print s+0}')
    verdict=CONFIRMED
    [ $good = 0 ] && [ $bad != 0 ] && [ $bad != 3 ] && [ $bad != 4 ] && [ $t = 0 ] || verdict=NO
    echo "$id $verdict unchanged=$good patched=$bad tests=$t passed=$passed"
done
rm -rf "$s/repo"
