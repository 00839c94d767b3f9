#!/bin/bash
# builds the engine and the runtime preludes into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
cd "$here"
src="vseng.cpp engine.h interp.inc explore.inc state.h module.h expr.h vs.h rt/vs_sync.cpp rt/vs_eh.cpp rt/vs_std.cpp rt/native.cpp shim/bits/atomic_wait.h build.sh"
h=$(cat $src | sha256sum | cut -c1-32)
if [ -x "$out/vseng" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$h" ]; then exit 0; fi
exec 9>"$out/lock"; flock 9
if [ -x "$out/vseng" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$h" ]; then exit 0; fi
F="-std=c++20 -O0 -Xclang -disable-O0-optnone -gline-tables-only -Ishim -S -emit-llvm"
clang++ $F rt/vs_sync.cpp -o "$out/vs_sync.ll" &
p1=$!
clang++ $F rt/vs_eh.cpp -o "$out/vs_eh.ll" &
p2=$!
clang++ $F rt/vs_std.cpp -o "$out/vs_std.ll" &
p4=$!
clang++ -std=c++20 -O1 -g -c rt/native.cpp -o "$out/native.o" &
p3=$!
clang++ -std=c++20 -O2 -g1 -fno-rtti -fexceptions $(llvm-config-18 --cppflags 2>/dev/null || llvm-config --cppflags) -Wno-deprecated-declarations vseng.cpp -o "$out/vseng.tmp" \
  $(llvm-config-18 --ldflags 2>/dev/null || llvm-config --ldflags) -lLLVM-18 -lz3
wait $p1; wait $p2; wait $p3; wait $p4
mv "$out/vseng.tmp" "$out/vseng"
echo $h > "$out/stamp"
