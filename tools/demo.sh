#!/bin/bash
# run with cwd at the top of the built source tree
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TYPELIB_PLUGIN_PATH=$B/lang/csupport:$B/lang/tlb:$B/lang/idl
g++ -std=gnu++14 -w -O1 -g -I"$R" -I"$R/typelib" -I"$D" "$D/demo.cc" -o "$T/demo" -L"$B/typelib" -ltypeLib \
    -lboost_filesystem -lboost_system -lboost_thread -lpthread -ldl -Wl,-rpath,"$B/typelib" @FLAGS@ || exit 2
cd "$T" && timeout 100 ./demo >"$T/out" 2>"$T/err"
rc=$?
tail -5 "$T/err"
exit $rc
