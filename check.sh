#!/bin/bash
# Usage: check.sh PROPERTY   (analyses /repo's current source; writes evidence/PROPERTY.json)
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/ohcheck ] && [ -z "$(find checker -newer bin/ohcheck -name '*.go' -print -quit)" ] || ./setup.sh || exit 2
ulimit -v 16000000
timeout 850 ./bin/ohcheck -root "$PWD" -repo /repo -property "$1"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# The analysis itself gave up: the property is not established.
	echo "analysis of property $1 ended with status $rc" | tee "evidence/replay-$1.txt"
	echo "VIOLATION property=$1 replay=$PWD/evidence/replay-$1.txt"
	rc=1
fi
exit $rc
