#!/bin/bash
# usage: replay.sh FILE   re-executes a replay file on luafmt built from /repo; exit 1: the violation is reproduced
here=$(cd "$(dirname "$0")" && pwd) || exit 2
f=$(realpath "${1:?replay file}")
"$here/tools/build.sh" lib || exit 2
exec "$here/build/dst/release/dst" replay "$f" --bin "$here/build/luafmt/release/luafmt" \
    --shim "$here/build/simshim.so" --libsim "$here/build/lib/release/libsim"
