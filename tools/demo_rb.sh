#!/bin/bash
# run with cwd at the top of the built source tree
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TYPELIB_PLUGIN_PATH=$B/lang/csupport:$B/lang/tlb:$B/lang/idl
mkdir "$T/bin" && cp "$D"/castxml "$T/bin/" 2>/dev/null && chmod +x "$T/bin/castxml"
export PATH=$T/bin:$PATH TMPDIR=$T
cd "$T" && timeout 100 ruby -W0 -I"$B/bindings/ruby" -I"$R/bindings/ruby/lib" -r"$D/boot.rb" "$D/demo.rb" >"$T/out" 2>"$T/err"
rc=$?
head -5 "$T/err"
exit $rc
