#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 replay a recorded violation exactly
# check.sh build                         only build
# check.sh digest <property> <n>         one line per run, to compare two executions
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo=/repo
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE MIRIFLAGS
seed="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"

# Build products are kept per content of the sources: nothing depends on file times.
key=$( { cd "$repo" && find Cargo.toml src derive/Cargo.toml derive/src -type f -print0 | sort -z | xargs -0 sha256sum
         cd "$here/sim" && find Cargo.toml Cargo.lock src ../nostd/Cargo.toml ../nostd/Cargo.lock ../nostd/src -type f -print0 | sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -c1-16)
root="$here/target"
dir="$root/$key"
mkdir -p "$dir" || exit 2
touch "$dir"
# Old builds go, the most recent four stay.
ls -1dt "$root"/*/ 2>/dev/null | tail -n +5 | while read -r d; do
    case "$d" in "$root"/????????????????/) [ -n "$(find "$d" -maxdepth 0 -mmin +180)" ] && rm -rf "$d" ;; esac
done

# C15 runs a second build of the same sources, with std, in which every basic block ticks the
# simulated clock (sim/src/clock.rs).
clocked="$dir/clocked/x86_64-unknown-linux-gnu/release/sim"
build_clocked() {
    ( flock 9
      flags="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
      for f in memcpy memmove memset memcmp bcmp; do flags="$flags -Clink-arg=-Wl,--wrap=$f"; done
      cd "$here/sim" && RUSTFLAGS="$flags" cargo build --offline --release --quiet --features clock -Zbuild-std=std,panic_unwind \
          --target x86_64-unknown-linux-gnu --target-dir "$dir/clocked" ) 9>"$dir/.lock2" >"$dir/clocked.log" 2>&1
    if [ ! -x "$clocked" ] || grep -q '^error' "$dir/clocked.log"; then
        echo "error of the check: the clocked simulator does not build against $repo" >&2
        grep -A12 '^error' "$dir/clocked.log" | head -60 >&2
        exit 2
    fi
}
# C09 runs a build in which the compiler calls the scheduler before every basic block and every memory
# access, so that threads are preempted anywhere inside the library.
preempt="$dir/preempt/x86_64-unknown-linux-gnu/release/sim"
build_preempt() {
    ( flock 9
      flags="-Cpasses=sancov-module"
      for f in level=3 trace-pc-guard trace-loads trace-stores; do flags="$flags -Cllvm-args=-sanitizer-coverage-$f"; done
      cd "$here/sim" && RUSTFLAGS="$flags" cargo build --offline --release --quiet --features preempt \
          --target x86_64-unknown-linux-gnu --target-dir "$dir/preempt" ) 9>"$dir/.lock4" >"$dir/preempt.log" 2>&1
    if [ ! -x "$preempt" ] || grep -q '^error' "$dir/preempt.log"; then
        echo "error of the check: the preempting simulator does not build against $repo" >&2
        grep -A12 '^error' "$dir/preempt.log" | head -60 >&2
        exit 2
    fi
}
# C19 compares with a build of the same sources against the library without its std feature.
build_bare() {
    ( flock 9
      cd "$here/sim" && cargo build --offline --release --quiet --no-default-features --target-dir "$dir/bare" ) 9>"$dir/.lock3" >"$dir/bare.log" 2>&1
    export SIM_BARE="$dir/bare/release/sim"
    if [ ! -x "$SIM_BARE" ] || grep -q '^error' "$dir/bare.log"; then
        # The library compiles with std (the other build succeeded). If it does not compile without, that
        # is the violation; otherwise the check is at fault.
        if ! cargo build --offline --release --quiet --manifest-path "$repo/Cargo.toml" -p miniserde --no-default-features \
            --target-dir "$dir/barelib" >"$dir/barelib.log" 2>&1; then
            mkdir -p "$here/replays"
            { echo "# replay with: /verif/check.sh replay $here/replays/C19-build.replay"
              echo "property C19"; echo "class does-not-build"; sed 's/^/# /' "$dir/barelib.log" | head -60; } >"$here/replays/C19-build.replay"
            grep -A12 '^error' "$dir/barelib.log" | head -40
            echo "the library does not build without its std feature"
            echo "VIOLATION property=C19 replay=$here/replays/C19-build.replay"
            exit 1
        fi
        echo "error of the check: the simulator does not build against $repo without std" >&2
        grep -A12 '^error' "$dir/bare.log" | head -60 >&2
        exit 2
    fi
}
# ... and builds a program that is itself without std, for a machine that has none.
build_nostd() {
    (
        flock 9
        cd "$here/nostd" || exit 1
        flags="--offline --quiet -Zbuild-std=core,alloc --target x86_64-unknown-none --target-dir $dir/nostd"
        # Without the library first, which has to work whatever the library is like.
        cargo build $flags --no-default-features >"$dir/nostd0.log" 2>&1 || exit 2
        cargo build $flags >"$dir/nostd.log" 2>&1 || exit 1
    ) 9>"$dir/.lock5"
    case $? in
    0) return 0 ;;
    1)  mkdir -p "$here/replays"
        { echo "# replay with: /verif/check.sh replay $here/replays/C19-build.replay"
          echo "property C19"; echo "class does-not-build"; sed 's/^/# /' "$dir/nostd.log" | grep -A40 '^# error' | head -60; } >"$here/replays/C19-build.replay"
        grep -A12 '^error' "$dir/nostd.log" | head -40
        echo "a program without std that uses the library does not compile"
        echo "VIOLATION property=C19 replay=$here/replays/C19-build.replay"
        return 1 ;;
    *)  echo "error of the check: no program without std compiles here" >&2
        head -40 "$dir/nostd0.log" >&2
        return 2 ;;
    esac
}
build() {
    ( flock 9
      cd "$here/sim" && cargo build --offline --release --quiet --target-dir "$dir" ) 9>"$dir/.lock" >"$dir/build.log" 2>&1
    if [ ! -x "$dir/release/sim" ] || grep -q '^error' "$dir/build.log"; then
        echo "error of the check: the simulator does not build against $repo" >&2
        grep -A12 '^error' "$dir/build.log" | head -60 >&2
        exit 2
    fi
}
# Scratch files of the runs, in memory where there is room.
tmp="$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX")" || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
export SIM_TMP="$tmp"
export SIM_MIRI_TARGET="$dir/miri"
case "${1:-}" in
build) build_clocked & c=$!; build_preempt & p=$!; build_nostd & n=$!; build; build_bare; wait $c || exit 2; wait $p || exit 2; wait $n || exit $? ;;
replay) if grep -q '^property C15' "$2"; then build_clocked; sim="$clocked"; elif grep -q '^property C09' "$2"; then build_preempt; sim="$preempt"; else build; sim="$dir/release/sim"; fi
    if grep -q '^property C19' "$2"; then build_bare; build_nostd || exit $?; fi
    if grep -q '^class does-not-build' "$2"; then echo "not reproduced"; exit 0; fi
    "$sim" replay "$(readlink -f "$2")"; exit $? ;;
digest) if [ "$2" = C15 ]; then build_clocked; "$clocked" digest C15 quick "$seed" 0 "${3:-200}"; exit $?; fi
    if [ "$2" = C09 ]; then build_preempt; "$preempt" digest C09 quick "$seed" 0 "${3:-200}"; exit $?; fi
    build; if [ "$2" = C19 ]; then build_bare; fi; "$dir/release/sim" digest "$2" quick "$seed" 0 "${3:-200}"; exit $? ;;
C09) build_preempt; "$preempt" run C09 "$tier" "$seed" "$here"; exit $? ;;
C15) build_clocked; "$clocked" run C15 "$tier" "$seed" "$here"; exit $? ;;
C19) build_nostd & n=$!; build; build_bare; wait $n || exit $?; "$dir/release/sim" run C19 "$tier" "$seed" "$here"; exit $? ;;
C[0-9][0-9]) build; "$dir/release/sim" run "$1" "$tier" "$seed" "$here"; exit $? ;;
*) echo "usage: check.sh <property> [quick|thorough] | replay <file> | build | digest <property> <n>" >&2; exit 2 ;;
esac
