#!/bin/bash
# check.sh <property>: builds what the check needs from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VMON_VERIF="$PWD"
. ./env.sh
P="$1"
LOG="target/build-$P.log"
mkdir -p target evidence
build() {
    if ! "$@" >>"$LOG" 2>&1; then
        tail -30 "$LOG"
        echo "INCONCLUSIVE property=$P build failed: $*"
        exit 2
    fi
}
: >"$LOG"
case "$P" in
C02 | C04 | C05 | C06 | C07 | C08 | C09 | C10 | C25) PROFILE=deep OUT=deep ;;
*) PROFILE=dev OUT=debug ;;
esac
build cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/vmon --bin vmon --profile "$PROFILE"
case "$P" in
C18 | C21 | C24 | C28 | C30)
    build cargo build --offline --manifest-path cli/Cargo.toml --target-dir target/cli
    export VMON_BIN="$PWD/target/cli/debug"
    ;;
C23 | C29)
    . ./tsan.sh
    build tsan_build
    export VMON_TSAN="$PWD/target/tsan/x86_64-unknown-linux-gnu/debug/vmon"
    if [ "$VERIF_TIER" = thorough ]; then
        export VMON_MIRI="$PWD/miri.sh"
        build ./miri.sh list
    fi
    ;;
C22)
    export PYO3_PYTHON=/opt/vp/pyvenv/bin/python3
    build cargo build --offline --manifest-path pybind/Cargo.toml --target-dir target/pybind
    # the package as it is laid out in /repo, with the module just built
    PKG="$(mktemp -d)"
    trap 'rm -rf "$PKG"' EXIT
    mkdir "$PKG/chanoma"
    cp ../repo/bindings/python3/chanoma/*.py "$PKG/chanoma/"
    cp target/pybind/debug/libchanoma_py.so "$PKG/chanoma/chanoma.so"
    export VMON_PY="$PKG" VMON_DRIVER="$PWD/pybind/driver.py" VMON_PYTHON="$PYO3_PYTHON" PYTHONDONTWRITEBYTECODE=1
    target/vmon/$OUT/vmon check "$P"
    exit $?
    ;;
esac
exec target/vmon/$OUT/vmon check "$P"
