#!/bin/bash
# check.sh ID [--tier quick|thorough] [...]   decides one property on /repo's working tree
# check.sh --setup                            builds everything the checks need
# check.sh --replay FILE                      re-runs a saved counterexample
# Builds go to /verif/harness/target; nothing under /repo is written.
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_INCREMENTAL=1
T=$root/harness/target
mkdir -p "$T" "$root/evidence" "$root/replays"
exec 9>"$T/.verif-lock" && flock 9

# Cargo decides by file times; decide by content instead, so that no copy of the tree can look fresh.
stamp=$(cd /repo && find Cargo.toml Cargo.lock reductionml-core reductionml-cli reductionml-python -type f \
    \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.py' -o -name '*.pyi' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
fresh() { [ "$(cat "$T/.stamp-$1" 2>/dev/null)" = "$stamp" ]; }
build_harness() {
    fresh harness || (cd "$root/harness" && cargo clean --offline -p reductionml-core >/dev/null 2>&1)
    (cd "$root/harness" && cargo build --offline >"$T/.build.log" 2>&1) || { tail -40 "$T/.build.log"; echo "ERROR: the harness does not build"; exit 3; }
    echo "$stamp" >"$T/.stamp-harness"
}
# command line program and Python extension, as a user would build them
build_bins() {
    export CARGO_TARGET_DIR=$T/repo
    fresh bins || (cd /repo && cargo clean --offline -p reductionml-core -p reductionml-cli -p reductionml-python >/dev/null 2>&1)
    (cd /repo && cargo build --locked --offline -p reductionml-cli -p reductionml-python >"$T/.build2.log" 2>&1) || { tail -40 "$T/.build2.log"; echo "ERROR: the programs do not build"; exit 3; }
    unset CARGO_TARGET_DIR
    mkdir -p "$T/py" && rm -rf "$T/py/reductionml" && cp -r /repo/reductionml-python/python/reductionml "$T/py/reductionml" &&
    cp "$T/repo/debug/libreductionml.so" "$T/py/reductionml/_reductionml.so" || exit 3
    echo "$stamp" >"$T/.stamp-bins"
}
# both once more, optimised
build_release() {
    fresh release || { (cd "$root/harness" && cargo clean --offline --release -p reductionml-core; cd /repo && CARGO_TARGET_DIR=$T/repo cargo clean --offline --release -p reductionml-core -p reductionml-cli) >/dev/null 2>&1; }
    (cd "$root/harness" && CARGO_INCREMENTAL=0 cargo build --release --offline) >"$T/.build3.log" 2>&1 &&
    (cd /repo && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$T/repo cargo build --release --locked --offline -p reductionml-cli) >>"$T/.build3.log" 2>&1 ||
        { tail -40 "$T/.build3.log"; echo "ERROR: the optimised programs do not build"; exit 3; }
    echo "$stamp" >"$T/.stamp-release"
}
export VERIF_RELEASE=$T/release/verif-harness VERIF_RELEASE_REML=$T/repo/release/reml
export VERIF_REML=$T/repo/debug/reml VERIF_PYPATH=$T/py
case $1 in
    --setup) build_harness; build_bins; build_release; exit 0 ;;
    --replay) build_harness; build_bins; grep -q '"C37"' "$2" && build_release; shift; flock -u 9; exec "$T/debug/verif-harness" replay "$1" --root "$root" ;;
esac
id=$1; shift
build_harness
case " $(cat "$root/needs_bins.txt") " in *" $id "*) build_bins ;; esac
[ "$id" = C37 ] && build_release
flock -u 9
exec 9>&-
exec "$T/debug/verif-harness" check "$id" --root "$root" "$@"
