#!/bin/bash
# build_ir.sh OUTDIR: compile every source of /repo/src (the set the project's Makefile builds) to LLVM IR
# with the project's own flags, link it, run mem2reg/sroa, and dump it as JSON for the analyses.
set -e
out=$(realpath -m "$1")
repo=${ECGEN_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/bc"
if [ ! -x "$here/../_build/irdump" ] || [ "$here/irdump.cpp" -nt "$here/../_build/irdump" ]; then
	mkdir -p "$here/../_build"
	t=$(mktemp "$here/../_build/irdump.XXXXXX")
	clang++-18 -O1 $(llvm-config-18 --cxxflags) -fno-rtti "$here/irdump.cpp" -o "$t" $(llvm-config-18 --ldflags) -lLLVM-18
	chmod 755 "$t"; mv "$t" "$here/../_build/irdump"
fi
cd "$repo/src"
export OUT="$out"
ls ecgen.c */*.c | xargs -P 8 -I{} sh -c '
	f={}; o="$OUT/bc/$(echo $f | tr / _).bc"
	clang-18 -I. -I../lib -DNDEBUG -g -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -w -c -emit-llvm "$f" -o "$o"'
llvm-link-18 "$out"/bc/*.bc -o "$out/all.bc"
opt-18 -passes='function(sroa)' "$out/all.bc" -o "$out/m2r.bc"
"$here/../_build/irdump" "$out/m2r.bc" > "$out/ir.json"
