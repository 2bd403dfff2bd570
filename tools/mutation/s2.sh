. /opt/vp/env.sh
export GOCACHE=/tmp/mut/cache GOFLAGS="-mod=readonly -buildvcs=false" HOME=/tmp/mut/home GOMAXPROCS=2 GOSUMDB=off TMPDIR=/tmp/mut/tmp
mkdir -p $HOME $TMPDIR
exec python3 /tmp/mut/stage2.py ${1:-4}
