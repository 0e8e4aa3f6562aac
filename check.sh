#!/bin/bash
# check.sh ID quick|thorough   build from the repository's working tree and check one property
# check.sh replay FILE         run a replay file again
# Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd); cd "$here" || exit 2
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$here/.build" || exit 2
tmp=$(mktemp -d "$here/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
if ! ./build.sh "$tmp" >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "check error: build failed" >&2
	exit 2
fi
case $1 in
replay) "$tmp/coord" replay "$2" ;;
determinism) "$tmp/coord" determinism "$2" "${3:-40}" ;;
*) "$tmp/coord" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
rc=$?
exit $rc
