#!/bin/bash
. /opt/vp/env.sh; export GOFLAGS="-mod=readonly -buildvcs=false" GOSUMDB=off
cd /verif/harness && go build -o /tmp/w/h . || exit 9
for p in ${1//,/ }; do r=(); [ $p = C22 ] && { CGO_ENABLED=1 go build -race -o /tmp/w/hr . || exit 9; r=(-racebin /tmp/w/hr); }
/tmp/w/h check -prop $p -bin /tmp/w/texted -verif /tmp/w/v "${r[@]}" "${@:2}" > /tmp/w/out.$p 2>&1; echo "exit $?"; head -c 1800 /tmp/w/out.$p; echo; done
exit 0
