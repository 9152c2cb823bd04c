#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property
# check.sh replay FILE                 run a replay file again
# Exit 0: held; 1: VIOLATION line printed; 2: trouble of the check itself.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export VSIM_VERIF=$V VSIM_REPO=${VSIM_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
mkdir -p .build || exit 2
bin=.build/vsim.$$
(cd sim && go build -o "../$bin" .) >&2 || { echo "ERROR: the simulator does not build" >&2; exit 2; }
case ${1:-} in
replay|determinism|warm) "$V/$bin" "$@" ;;
*) "$V/$bin" check "$@" ;;
esac
code=$?
rm -f "$V/$bin"
exit $code
