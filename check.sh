#!/bin/bash
# check.sh <property>      run one property's monitors against /repo's working tree
# check.sh replay <file>   run again the one case a replay file describes
# check.sh setup           build everything, run nothing
# Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
target="$here/target"
log="$target/log"
mkdir -p "$target" "$here/evidence"

# Cargo decides by timestamps whether to rebuild; a copied tree may carry any timestamps, so
# decide by content whether the code under test is the one last built.
# build <name> <command that forgets what was built of the code under test> <command that builds>
build() {
    local name=$1 forget=$2 make=$3 now
    exec 9>"$target/$name.lock"
    flock 9
    now=$( { cd /repo && find Cargo.toml rust-src native/src native/Cargo.toml test_utils index.js -type f -print0 | sort -z | xargs -0 sha256sum
             cd "$here" && find vendor bindings harness/src harness/Cargo.toml harness/Cargo.lock check.sh miri-worker.sh -type f -print0 | sort -z | xargs -0 sha256sum
           } | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$target/$name.stamp" 2>/dev/null)" != "$now" ] || [ ! -d "$target/$name" ]; then
        rm -f "$target/$name.stamp"
        # cargo takes the stand-ins for immutable
        local standins=$(cd "$here" && find vendor -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
        [ "$(cat "$target/$name.standins" 2>/dev/null)" = "$standins" ] || rm -rf "$target/$name"
        echo "$standins" >"$target/$name.standins"
        (cd "$here/harness" && $forget >/dev/null 2>&1)
        # if need be without the monitors that reach into the record format or call helpers, should those have changed
        local ok='' features to="$log.$name"
        for features in "" format,helpers helpers format none; do
            case $features in
                "") ;;
                none) features="--no-default-features" ;;
                *) features="--no-default-features --features $features" ;;
            esac
            echo "$features" >"$target/$name.features"
            (cd "$here/harness" && FEATURES=$features $make >"$to" 2>&1) && ok=yes && break
            to="$log.$name.again"
            [ $name != bindings ] || break
        done
        if [ -z "$ok" ]; then
            flock -u 9
            echo "the $name build failed:" >&2
            tail -40 "$log.$name" >&2
            return 1
        fi
        echo "$now" >"$target/$name.stamp"
    fi
    flock -u 9
}
cargo_in() { # <target directory> <rustflags> <cargo arguments...>
    local dir=$1 flags=$2
    shift 2
    case " $* " in *" build "*) set -- "$@" ${FEATURES:-} ;; esac
    CARGO_TARGET_DIR="$target/$dir" RUSTFLAGS="--cfg carmen_verif -Awarnings $flags" cargo "$@"
}

asserts="$target/asserts/debug/carmen-verif"
asan_triple=x86_64-unknown-linux-gnu
ours="-p carmen-core -p carmen-verif"
build_asserts() {
    build asserts "cargo_in asserts -Cdebug-assertions=on clean --offline $ours" "cargo_in asserts -Cdebug-assertions=on build --offline --locked"
}
build_asan() {
    build asan "cargo_in asan -Zsanitizer=address +nightly clean --offline --target $asan_triple $ours" \
        "cargo_in asan -Zsanitizer=address +nightly build --offline --locked --target $asan_triple" &&
        export VERIF_ASAN_BIN="$target/asan/$asan_triple/debug/carmen-verif"
}
build_miri() {
    build miri "$here/miri-worker.sh clean" "$here/miri-worker.sh build" && export VERIF_MIRI_SH="$here/miri-worker.sh"
}
# the node bindings, and the monitors of them and of test_utils
extras="$target/extras/debug/carmen-verif"
build_extras() {
    build extras "cargo_in extras -Cdebug-assertions=on clean --offline $ours -p test_utils" \
        "cargo_in extras -Cdebug-assertions=on build --offline --locked --features extras -p test_utils -p carmen-verif"
}
bindings_cargo() {
    cd "$here/bindings" && CARGO_TARGET_DIR="$target/bindings" RUSTFLAGS=-Awarnings cargo "$@"
}
build_bindings() {
    build bindings "bindings_cargo clean --offline -p carmen-core -p node-carmen-core" "bindings_cargo build --offline --locked" &&
        export VERIF_ADDON="$target/bindings/debug/libnode_carmen_core.so"
}
case "${1:-}" in
    setup)
        build_asserts && build_extras && build_bindings && build_asan && build_miri || exit 2
        exit 0
        ;;
    replay)
        case $(grep -o '"property": *"[^"]*"' "$2") in
            *C22* | *C32*) build_extras && build_bindings && exec "$extras" replay "$2" ;;
            *C24*) build_extras && exec "$extras" replay "$2" ;;
        esac
        case $(grep -o '"build": *"[^"]*"' "$2") in
            *miri*) build_miri && exec "$VERIF_MIRI_SH" replay "$(realpath "$2")" ;;
            *sanitizer*) build_asan && exec env ASAN_OPTIONS=abort_on_error=1:detect_leaks=0 "$VERIF_ASAN_BIN" replay "$2" ;;
            *) build_asserts && exec "$asserts" replay "$2" ;;
        esac
        exit 2
        ;;
    "")
        sed -n 2,5p "$0"
        exit 2
        ;;
esac
unset VERIF_ASAN_BIN VERIF_MIRI_SH VERIF_ADDON
case $1 in
    C22 | C32) build_extras && build_bindings && exec "$extras" check "$1" ;;
    C24) build_extras && exec "$extras" check "$1" ;;
esac
case $1 in C22 | C24 | C32) exit 2 ;; esac
build_asserts || exit 2
# further builds of the same monitors
case $1 in
    C20) build_asan && build_miri || exit 2 ;;
    C19) build_miri || exit 2 ;;
    *) [ "${VERIF_TIER:-quick}" != thorough ] || build_asan || exit 2 ;;
esac
exec "$asserts" check "$1"
