#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     decide one property
#        check.sh PROPERTY replay FN SEED/SIZE  run one generated input again
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
BIN=$V/bin/gover
mkdir -p "$V/bin"
(cd gover && go build -o "$BIN" .) || exit 2
unset GOFLAGS
if [ "$2" = replay ]; then
	exec "$BIN" check -verif "$V" -prop "$1" -fn "$3" -one "$4"
fi
T=${2:-${VERIF_TIER:-quick}}
timeout -k 5 840 "$BIN" check -verif "$V" -prop "$1" -tier "$T"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the verifier itself could not process this code: say so, and still execute the contracts
	timeout -k 5 200 "$BIN" check -verif "$V" -prop "$1" -tier quick -noproof
	rc=$?
fi
exit $rc
