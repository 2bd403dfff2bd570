. /opt/vp/env.sh
export GOCACHE=/tmp/mut/cache GOFLAGS="-mod=readonly -buildvcs=false" HOME=/tmp/mut/home GOMAXPROCS=2
mkdir -p $HOME
exec nice -n 19 python3 /tmp/mut/stage1.py ${1:-3}
