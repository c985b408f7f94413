#!/bin/bash
# Runs in /repo after its build; exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo-bin-XXXXXX)
trap 'rm -rf "$out"' EXIT
g++ -std=c++11 -O1 -w -DNDEBUG -I/repo/src -I/usr/include/eigen3 "$here/demo.cpp" /repo/_build/libmacposts.a -o "$out/demo" -lpthread || exit 2
timeout 100 "$out/demo" > "$out/log" 2> "$out/err"
rc=$?
tail -5 "$out/err"
exit $rc
