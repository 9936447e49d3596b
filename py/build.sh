#!/bin/bash
# build.sh REPO OUT: the Python module, the seam and the reference, from the sources in REPO
set -u
repo=$1 out=$2
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/inc/CoMMA" || exit 4
sed -e 's/@INDEX_T@/unsigned long/' -e 's/@REAL_T@/double/' -e 's/@INT_T@/int/' -e 's/@[A-Za-z_]*@/0/g' \
  "$repo/config_files/CoMMAConfig.h.in" > "$out/inc/CoMMA/CoMMAConfig.h" || exit 4
inc="-I$out/inc -I$repo/include"
pids=()
g++ -std=c++17 -O1 -g1 -fPIC -shared -fvisibility=hidden -D_GLIBCXX_ASSERTIONS $inc \
  -I"$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')" \
  "$repo/src/CoMMA.cpp" -o "$out/CoMMA$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')" \
  2> "$out/module.log" & pids+=($!)
g++ -std=c++17 -O1 -g1 -fPIC -shared -fvisibility=default -D_GLIBCXX_ASSERTIONS $inc "$here/ref.cpp" -o "$out/ref.so" \
  2> "$out/ref.log" & pids+=($!)
g++ -std=c++17 -O1 -fPIC -shared "$here/shim.cpp" -o "$out/shim.so" 2> "$out/shim.log" & pids+=($!)
ok=1
for p in "${pids[@]}"; do wait $p || ok=0; done
if [ $ok = 0 ]; then
  for f in "$out"/*.log; do sed -n '1,20p' "$f" >&2; done
  exit 4
fi
