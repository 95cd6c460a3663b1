#!/bin/bash
# check.sh ID [--replay FILE]: builds what the check of property ID needs from /repo's current
# tree, then runs it. Exit 0: held; 1: VIOLATION line printed; other: the check could not run.
cd "$(dirname "$0")" || exit 2
. ./env.sh
case $1 in
C0[1-9] | C10 | C11 | C31) BIN=light/vh-light BUILD=build_light ;;
*) BIN=debug/vh-heavy BUILD=build_heavy ;;
esac
LOG=$(mktemp) || exit 2
t0=$SECONDS
if ! $BUILD >"$LOG" 2>&1; then
    echo "check error: the build failed" >&2
    tail -40 "$LOG" >&2
    rm -f "$LOG"
    exit 2
fi
rm -f "$LOG"
echo "built in $((SECONDS - t0)) s" >&2
exec "$CARGO_TARGET_DIR/$BIN" "$@"
