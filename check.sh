#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (VERIF_SEED, default 1; VERIF_TIER when no tier is given)
# exit 0: held on everything explored; 1 and a VIOLATION line: broken; anything else: the check itself failed
here=$(cd "$(dirname "$0")" && pwd) || exit 2
p=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
lib=()
what=
if [ "$p" = C16 ]; then
    what=lib
    lib=(--libsim "$here/build/lib/release/libsim")
fi
"$here/tools/build.sh" $what || { echo "check of $p: cannot build" >&2; exit 2; }
mkdir -p "$here/out" "$here/evidence"
exec "$here/build/dst/release/dst" check --prop "$p" --seed "${VERIF_SEED:-1}" --tier "$tier" \
    --bin "$here/build/luafmt/release/luafmt" --shim "$here/build/simshim.so" "${lib[@]}" \
    --known "$here/known-findings.txt" --out "$here/out" --evidence "$here/evidence/$p.json" --verbose "${VERIF_VERBOSE:-0}" ${VERIF_JOBS:+--jobs "$VERIF_JOBS"} ${VERIF_RUNS:+--runs "$VERIF_RUNS"}
