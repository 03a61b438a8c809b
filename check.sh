#!/bin/bash
# check.sh ID TIER: builds the model checker against /repo's working tree and decides one property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: error.
here="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$here"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
bash "$here/build.sh" "$id" >"$here/.build.$$.log" 2>&1 || { tail -40 "$here/.build.$$.log" >&2; rm -f "$here/.build.$$.log"; echo "build failed" >&2; exit 2; }
rm -f "$here/.build.$$.log"
ulimit -v 24000000 2>/dev/null
# the release build first (the bounds one step smaller), then the build with assertions and overflow checks
case "$tier" in thorough) small=quick ;; *) small=smoke ;; esac
MC_VARIANT=plain "$here/mc/target/plain/${id,,}" run "$small" || exit $?
MC_VARIANT=std "$here/mc/target/release/${id,,}" run "$tier"
