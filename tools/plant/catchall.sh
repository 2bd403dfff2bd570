for i in "$@"; do bash /tmp/w/catch.sh $i; done
