#!/bin/bash
# The monitors under Miri (tree borrows): miri-worker.sh clean | build | <arguments of carmen-verif>
# smallvec 0.6 fills its inline storage with mem::uninitialized, so validity of values isn't checked.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target/miri" RUSTFLAGS="--cfg carmen_verif -Awarnings"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-validation"
features=$(cat "$here/target/miri.features" 2>/dev/null)
case $1 in
    clean)
        exec cargo +nightly clean --offline --target-dir "$CARGO_TARGET_DIR/miri" --target x86_64-unknown-linux-gnu -p carmen-core -p carmen-verif
        ;;
    build) exec cargo +nightly miri run --offline --locked $features -- list ;;
    # each worker its own schedule: worker <id> <tier> <seed> <start> ...
    worker) MIRIFLAGS="$MIRIFLAGS -Zmiri-seed=$(( $4 * 64 + $5 ))" ;;
esac
exec cargo +nightly miri run -q --offline --locked $features -- "$@"
