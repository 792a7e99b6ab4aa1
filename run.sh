#!/bin/bash
# Decide one property on /repo's working tree by seeded simulation.
#   run.sh ID [quick|thorough]     exit 0: held; 1: VIOLATION line; 2: no answer
#   run.sh --replay FILE           run a replay file again
#   run.sh --build                build every world once (checks build for themselves)
#   run.sh --run ID PART I        make the I-th run of a part of a check, with its log
#   run.sh --determinism N         run N specifications of each property twice
set -u
here="$(cd "$(dirname "$0")" && pwd)"
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO="$(command -v go)"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/toaqdrv-XXXXXX")" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
( cd "$here/sim" && env -u GOROOT GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off "$GO" build -o "$tmp/vdriver" ./cmd/vdriver ) || { echo "cannot build the driver" >&2; exit 2; }
export VERIF_HOME="$here/sim" TMPDIR="$tmp"
case "${1:-}" in
--replay) "$tmp/vdriver" replay "$2" ;;
--run) "$tmp/vdriver" run "$2" "$3" "$4" ;;
--build) "$tmp/vdriver" build ref srv bot dict gen cli lib ;;
--determinism) "$tmp/vdriver" determinism "$2" ;;
"") echo "usage: run.sh ID [quick|thorough]" >&2; exit 2 ;;
*) "$tmp/vdriver" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
code=$?
exit $code
