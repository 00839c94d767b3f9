#!/bin/bash
# runs the engine on small uses of the standard library: prints what is not supported (not part of any check)
here=$(cd "$(dirname "$0")" && pwd); E=$here/..; B=$E/../build; t=$(mktemp -d)
bash $E/build.sh
clang++ -std=c++20 -O0 -Xclang -disable-O0-optnone -gline-tables-only -I$E/shim -I$E -Wno-everything -S -emit-llvm $here/std.cpp -o $t/t.ll || exit 1
for n in $(grep -oP '^E\(\K\w+' $here/std.cpp); do
  $B/vseng $t/t.ll --rt $B/vs_sync.ll --rt $B/vs_eh.ll --lib $B/vs_std.ll --entry $n --json $t/o.json --prefix $t/p. --time 20 --traces 0 >/dev/null 2>&1
  python3 - $n $t/o.json <<'P'
import json,sys
d=json.load(open(sys.argv[2]))
if not d['complete'] or d['violations']: print(sys.argv[1],d.get('unsupported'),[(v['kind'],v['msg'][:80]) for v in d['violations']])
P
done
clang++ -std=c++20 -O0 -Xclang -disable-O0-optnone -gline-tables-only -I$E/shim -I$E -Wno-everything -S -emit-llvm $here/live.cpp -o $t/l.ll || exit 1
grep -A1 -oP '^(// expect \K\w+|E\(\K\w+)' $here/live.cpp | grep -v '^--' | paste - - | while read want n; do
  $B/vseng $t/l.ll --rt $B/vs_sync.ll --rt $B/vs_eh.ll --lib $B/vs_std.ll --entry $n --json $t/o.json --prefix $t/p. --time 60 --traces 0 >/dev/null 2>&1
  python3 - $n $want $t/o.json <<'P'
import json,sys
d=json.load(open(sys.argv[3]))
got=','.join(v['kind'] for v in d['violations']) or 'ok'
if not all(v['confirmed'] for v in d['violations']): got+=' unconfirmed'
got=got.replace("no-progress","livelock")
if got!=sys.argv[2] or (got=='ok' and not d['complete']): print(sys.argv[1],'expected',sys.argv[2],'got',got,d['why'])
P
done
find $t -delete
