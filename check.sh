#!/bin/bash
# check.sh build             build the simulator, the program under test and the libc shim
# check.sh <id>              decide a property (VERIF_SEED, VERIF_TIER)
# check.sh <id> replay FILE  execute a replay file
# check.sh selfcheck <id>..  same seeds, several worker counts: digests must agree
cd "$(dirname "$0")" || exit 2
ROOT="$PWD"
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true
REPO=/repo
mkdir -p target evidence replays

build() {
    exec 9>target/.lock
    flock 9
    # cargo looks at times; what counts is the contents
    local now old
    now=$(find "$REPO" -path "$REPO/target" -prune -o -path "$REPO/.git" -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat target/.sources 2>/dev/null)
    if [ "$now" != "$old" ]; then
        cargo clean --offline -q --manifest-path sim/Cargo.toml --target-dir target/sim -p whasm >/dev/null 2>&1
        cargo clean --offline -q --manifest-path "$REPO/parser/Cargo.toml" --target-dir target/cli -p whasm -p parser >/dev/null 2>&1
        rm -f "$ROOT/target/.sources"
    fi
    RUSTFLAGS="--cfg whasm_sim" cargo build --offline --manifest-path sim/Cargo.toml --target-dir target/sim >target/build-sim.log 2>&1 || { tail -40 target/build-sim.log; echo "build of the simulator failed"; exit 2; }
    cargo build --offline --manifest-path "$REPO/parser/Cargo.toml" --target-dir target/cli >target/build-cli.log 2>&1 || { tail -40 target/build-cli.log; echo "build of the program failed"; exit 2; }
    if [ ! -e target/shim.so ] || [ shim/shim.c -nt target/shim.so ]; then
        gcc -O1 -fno-delete-null-pointer-checks -Wall -fPIC -shared -o target/shim.so.new shim/shim.c -ldl >target/build-shim.log 2>&1 || { cat target/build-shim.log; exit 2; }
        mv target/shim.so.new target/shim.so
    fi
    echo "$now" >target/.sources
    flock -u 9
    exec 9>&-
}

build
case "$1" in
    build) exit 0 ;;
    selfcheck) shift; exec target/sim/debug/sim selfcheck "$@" ;;
    show) exec target/sim/debug/sim show "$2" "$3" ;;
esac
if [ "$2" = replay ]; then exec target/sim/debug/sim replay "$1" "$3"; fi
exec target/sim/debug/sim check "$1"
