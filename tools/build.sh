#!/bin/bash
# Builds, offline and incrementally, what a check needs into /verif/build (git-ignored):
#   the simulator (shim + dst), luafmt from /repo's working tree and, for C16, libsim linked with its library.
# usage: tools/build.sh [lib]
export HOME=/root
export CARGO_HOME=/root/.cargo RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_RELEASE_DEBUG
here=$(cd "$(dirname "$0")/.." && pwd) || exit 2
repo=/repo
b=$here/build
mkdir -p "$b" || exit 2
exec 9> "$b/.lock" && flock 9

sum() { # content hash of the build inputs below the given directories
    (cd "$1" && find . \( -path ./.git -o -path ./target \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.c' -o -name '*.lalrpop' -o -name '*.toml' -o -name Cargo.lock \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum)
}

# ---- the shim
if [ ! -f "$b/simshim.so" ] || [ "$(sum "$here/shim")" != "$(cat "$b/shim.stamp" 2>/dev/null)" ]; then
    rm -f "$b/shim.stamp"
    gcc -O2 -fPIC -shared -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-delete-null-pointer-checks -Wno-nonnull-compare \
        -o "$b/simshim.so.new" "$here/shim/simshim.c" -ldl && mv "$b/simshim.so.new" "$b/simshim.so" || exit 2
    sum "$here/shim" > "$b/shim.stamp"
fi

# ---- the simulated kernel and the checks
if [ ! -x "$b/dst/release/dst" ] || [ "$(sum "$here/dst")" != "$(cat "$b/dst.stamp" 2>/dev/null)" ]; then
    rm -f "$b/dst.stamp"
    rm -rf "$b"/dst/release/.fingerprint/dst-*
    (cd "$here/dst" && CARGO_TARGET_DIR=$b/dst cargo build --release --offline -q) || exit 2
    sum "$here/dst" > "$b/dst.stamp"
fi

# ---- luafmt, from the working tree. cargo goes by mtimes and lalrpop by a hash of the grammar alone, so when
# anything differs from the last good build, forget the package's fingerprints and the generated parsers.
cd "$repo" || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock || exit 2
now=$(sum "$repo")
if [ ! -x "$b/luafmt/release/luafmt" ] || [ "$now" != "$(cat "$b/luafmt.stamp" 2>/dev/null)" ]; then
    rm -rf "$b/luafmt.stamp" "$b/lib.stamp" "$b"/luafmt/release/.fingerprint/luafmt-*
    for grammar in $(find src -name '*.lalrpop'); do rm -f "${grammar%.lalrpop}.rs"; done
    CARGO_TARGET_DIR=$b/luafmt cargo build --release --offline --bin luafmt -q || exit 2
    sum "$repo" > "$b/luafmt.stamp"
fi

# ---- the library under the thread scheduler; without an entry point the library may have given another shape
[ "$1" = lib ] || exit 0
key="$(cat "$b/luafmt.stamp") $(sum "$here/libsim") $(cat "$here/tools/rustc-points.sh")"
if [ ! -x "$b/lib/release/libsim" ] || [ "$key" != "$(cat "$b/lib.stamp" 2>/dev/null)" ]; then
    rm -f "$b/lib.stamp"
    rm -rf "$b"/lib/release/.fingerprint/libsim-* "$b"/lib/release/.fingerprint/luafmt-*
    built=no
    for f in file,find,load,list file,load,list file,load file ""; do
        if (cd "$here/libsim" && CARGO_TARGET_DIR=$b/lib RUSTC_WRAPPER=$here/tools/rustc-points.sh cargo build --release --offline -q --no-default-features --features "$f") 2> "$b/lib.log"; then
            built=yes
            break
        fi
    done
    [ $built = yes ] || { cat "$b/lib.log"; exit 2; }
    echo "$key" > "$b/lib.stamp"
fi
exit 0
