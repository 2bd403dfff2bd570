#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   - decides one property against /repo's working tree
#        check.sh replay FILE                 - runs a replay file again
# exit 0: held on everything explored; 1: VIOLATION; 2 or more: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOWORK=off GOSUMDB=off
tmp=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
chmod 711 "$tmp" # some cases run texted as another user
trap 'rm -rf "$tmp"' EXIT
trap 'exit 3' INT TERM
repo=${VERIF_REPO:-/repo}
[ "$1" != replay ] || set -- replay "$(realpath "$2")"
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
(cd "$repo" && go build -o "$tmp/texted" ./cmd/texted) >&2 || { echo "cannot build the command line" >&2; exit 2; }
cd "$here/harness" || exit 2
mod=()
if [ "$repo" != /repo ]; then sed "s#=> /repo#=> $repo#" go.mod > "$tmp/go.mod"; cp go.sum "$tmp/go.sum"; mod=(-modfile "$tmp/go.mod"); fi
go build "${mod[@]}" -o "$tmp/harness" . >&2 || { echo "cannot build the harness" >&2; exit 2; }
race=()
mkdir -m 711 "$tmp/scratch" || exit 2
if [ "$prop" = C22 ] || { [ "$prop" = replay ] && grep -q '"property": *"C22"' "$2"; }; then
  CGO_ENABLED=1 go build -race "${mod[@]}" -o "$tmp/harness-race" . >&2 || { echo "cannot build the harness with -race" >&2; exit 2; }
  race=(-racebin "$tmp/harness-race")
fi
if [ "$prop" = replay ]; then
  exe=$tmp/harness; [ ${#race[@]} = 0 ] || exe=$tmp/harness-race
  GORACE="halt_on_error=1 exitcode=1" "$exe" replay -verif "$here" -bin "$tmp/texted" -repo "$repo" -scratch "$tmp/scratch" "$2"
else
  "$tmp/harness" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" -bin "$tmp/texted" -repo "$repo" -scratch "$tmp/scratch" "${race[@]}"
fi
