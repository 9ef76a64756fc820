#!/bin/bash
# usage: check.sh PROPERTY TIER
cd "$(dirname "$0")" || exit 2
V=$(pwd)
if [ ! -x bin/jscheck ] || [ -n "$(find engine -newer bin/jscheck -name '*.go' -not -path '*/vendor/*' -print -quit)" ]; then
  ./setup.sh || { echo "the analyzer can't be built"; exit 2; }
fi
export GOMEMLIMIT=20GiB
exec timeout -k 5 850 ./bin/jscheck -repo /repo -out "$V" -property "$1" -tier "${2:-quick}"
