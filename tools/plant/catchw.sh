#!/bin/bash
# catch with the working-tree harness
exec /tmp/w/catch.sh "$@"
