#!/bin/bash
# build.sh REPO OUT: build the simulator from the sources in REPO into OUT
set -u
repo=$1 out=$2
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/inc/CoMMA" || exit 4
sed -e 's/@INDEX_T@/unsigned long/' -e 's/@REAL_T@/double/' -e 's/@INT_T@/int/' -e 's/@[A-Za-z_]*@/0/g' \
  "$repo/config_files/CoMMAConfig.h.in" > "$out/inc/CoMMA/CoMMAConfig.h" || exit 4
cxx=clang++-18
common="-std=c++17 -g1 -fno-omit-frame-pointer"
lib="$common -O1 -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -ffp-exception-behavior=strict -D_GLIBCXX_ASSERTIONS -I$here -I$out/inc -I$repo/include"
build_lib() {
  $cxx $lib -include "$here/simstd.h" -include "$here/simhash.h" -c "$here/lib_$1.cpp" -o "$out/lib_$1.o" 2> "$out/lib_$1.log" ||
    $cxx $lib -include "$here/simstd.h" -c "$here/lib_$1.cpp" -o "$out/lib_$1.o" 2>> "$out/lib_$1.log"
}
pids=()
for k in 0 1 2; do build_lib $k & pids+=($!); done
for f in exec scenario main; do
  $cxx $common -O1 -fsanitize=address -I"$here" -c "$here/$f.cpp" -o "$out/$f.o" 2> "$out/$f.log" & pids+=($!)
done
$cxx $common -O2 -I"$here" -c "$here/runtime.cpp" -o "$out/runtime.o" 2> "$out/runtime.log" & pids+=($!)
ok=1
for p in "${pids[@]}"; do wait $p || ok=0; done
if [ $ok = 0 ]; then
  for f in "$out"/*.log; do sed -n '1,20p' "$f" >&2; done
  exit 4
fi
# the library objects, and only they, reach the system through the simulator
redef=()
for s in malloc calloc realloc free pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock \
  __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort printf fprintf vprintf vfprintf \
  puts fputs putchar putc fputc fwrite fflush write srand srandom rand random getpid pthread_self clock getenv time clock_gettime \
  _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt13random_device9_M_getvalEv; do
  redef+=(--redefine-sym "$s=__wrap_$s")
done
for k in 0 1 2; do objcopy "${redef[@]}" "$out/lib_$k.o" || exit 4; done
# the library last: its static objects are created after the simulator's own
$cxx -fsanitize=address -no-pie "$out"/runtime.o "$out"/exec.o "$out"/scenario.o "$out"/main.o \
  "$out"/lib_0.o "$out"/lib_1.o "$out"/lib_2.o -lpthread -o "$out/sim" || exit 4
