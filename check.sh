#!/bin/bash
# check.sh <property> : builds the simulator against /repo's working tree and runs one check.
# check.sh build | replay <file> | <any other arguments of the simulator>
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
cd /verif || exit 2
# cargo goes by mtimes: a file put back with an old mtime must be rebuilt too
touch -c /repo/src/lib.rs
share=/verif/target/share/x86_64-unknown-linux-gnu/release/pmshare

build() {
    log=$(RUSTFLAGS=-Awarnings cargo build --release --offline --locked --bin pmsim \
        --manifest-path /verif/sim/Cargo.toml 2>&1) || {
        echo "$log"
        echo "check.sh: the simulator does not build"
        exit 3
    }
}

# Threads that share documents (C16): the library and the harness are instrumented as for the thread
# sanitizer, but linked against the scheduler in sim/share/rt.c instead of its runtime.
build_share() {
    mkdir -p /verif/target/share || exit 3
    cc -O2 -c /verif/sim/share/rt.c -o /verif/target/share/rt.o.$$ &&
        { cmp -s /verif/target/share/rt.o.$$ /verif/target/share/rt.o || cp /verif/target/share/rt.o.$$ /verif/target/share/rt.o; } ||
        { echo "check.sh: the scheduler does not build"; exit 3; }
    rm -f /verif/target/share/rt.o.$$
    log=$(RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target/share \
        RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=/verif/target/share/rt.o -Awarnings" \
        cargo build --release --offline --locked --bin pmshare --target x86_64-unknown-linux-gnu \
        --manifest-path /verif/sim/Cargo.toml 2>&1) && return
    # Values that cannot be shared or sent any more are a violation the compiler finds: all of its
    # complaints are about that, and about the harness' list of what is to be shared.
    if echo "$log" | grep -q '^error\[E0277\]: .* cannot be \(shared\|sent\) between threads safely' &&
        ! echo "$log" | grep '^error' | grep -v '^error\[E0277\]: .* cannot be \(shared\|sent\) between threads safely' |
            grep -qv '^error: could not compile `pmsim`'; then
        mkdir -p /verif/replays /verif/evidence
        echo "$log" | grep -A6 '^error\[E0277\]' | head -30
        f=/verif/replays/C16-compile.json
        what=$(echo "$log" | grep -m1 '^error\[E0277\]' | tr -d '"\\')
        echo "{\"property\": \"C16\", \"compile\": \"$what\"}" >$f
        tier=quick
        [ "$VERIF_TIER" = thorough ] && tier=thorough
        echo "{\"property\": \"C16\", \"tier\": \"$tier\", \"seed\": ${VERIF_SEED:-1}, \"level\": \"exploration\", \"coverage\": {\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"values of the library cannot be shared between threads: nothing was run\", \"samples\": [\"$what\"]}, \"violations\": 1, \"wall_s\": $SECONDS}" >/verif/evidence/C16.json
        echo "VIOLATION property=C16 replay=$f"
        exit 1
    fi
    echo "$log"
    echo "check.sh: the simulator of threads does not build"
    exit 3
}

case "$1" in
build)
    build
    # what is wrong with it, if anything, is for the check of C16 to say
    (build_share >/dev/null) || echo "check.sh: the simulator of threads does not build yet"
    exit 0
    ;;
C16)
    build_share
    exec $share check
    ;;
replay)
    if grep -q '"property": *"C16"' "$2" 2>/dev/null; then
        build_share
        grep -q '"compile"' "$2" && { echo "no violation"; exit 0; }
        exec $share replay "$2"
    fi
    ;;
esac
build
exec /verif/target/release/pmsim "$@"
