#!/bin/bash
# Builds the simulator and the instrumented server image from a yrmcds tree.
#   build.sh REPO OUT
set -e
REPO=${1:-/repo}; OUT=${2:-/verif/build}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/inc/x" "$OUT/node" "$OUT/sim"
{ echo -n 'static char COPYING[] = R"('; head -c 2000 "$REPO/COPYING" 2>/dev/null || echo; echo ')";'; } > "$OUT/inc/COPYING.hpp"
CL=$(getconf LEVEL1_DCACHE_LINESIZE); case "$CL" in ''|0|undefined) CL=64;; esac
TC=; [ -e /usr/include/gperftools/tcmalloc.h ] && TC=-DUSE_TCMALLOC
NODEFLAGS="-std=gnu++17 -O1 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -g1 -fPIC -fsanitize=thread -fno-gnu-unique -fno-omit-frame-pointer -w $(getconf LFS_CFLAGS) -I$REPO -I$OUT/inc/x -DCACHELINE_SIZE=$CL -DDEFAULT_CONFIG=/nonexistent/yrmcds.conf $TC"
SIMFLAGS="-std=c++20 -O2 -g1 -Wall -Wno-misleading-indentation -fno-omit-frame-pointer"
MK="$OUT/Makefile"
{
  echo "all: $OUT/node.so $OUT/ysim"
  objs=
  for s in $(cd "$REPO" && ls cybozu/*.cpp src/*.cpp src/*/*.cpp); do
    o="$OUT/node/$(echo "$s" | tr '/' '_' | sed 's/\.cpp$/.o/')"
    objs="$objs $o"
    d=; [ "$s" = src/main.cpp ] && d=-Dmain=ysim_repo_main
    echo "$o: $REPO/$s \$(wildcard $REPO/src/*.hpp $REPO/src/*/*.hpp $REPO/cybozu/*.hpp) $HERE/build.sh"
    printf '\tg++ %s %s -c %s -o $@.tmp.o\n' "$NODEFLAGS" "$d" "$REPO/$s"
    printf '\tobjcopy --rename-section .init_array=ysim_init --redefine-sym __cxa_guard_acquire=ysim_guard_acquire --redefine-sym __cxa_guard_release=ysim_guard_release --redefine-sym __cxa_guard_abort=ysim_guard_abort --redefine-sym __cxa_atexit=ysim_cxa_atexit --redefine-sym __cxa_thread_atexit=ysim_cxa_thread_atexit $@.tmp.o $@ && rm -f $@.tmp.o\n'
  done
  echo "$OUT/node/shim.o: $HERE/shim.cpp"
  printf '\tg++ -O1 -fPIC -c $< -o $@\n'
  echo "$OUT/node.so: $objs $OUT/node/shim.o"
  printf '\tg++ -shared -Wl,-Bsymbolic -Wl,--no-gc-sections -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -o $@ $^ -lstdc++ -lm -lc -lgcc_s\n'
  sobjs=
  for s in $(cd "$HERE" && ls *.cpp | grep -v shim.cpp); do
    o="$OUT/sim/${s%.cpp}.o"; sobjs="$sobjs $o"
    echo "$o: $HERE/$s \$(wildcard $HERE/*.hpp)"
    printf '\tg++ %s -c $< -o $@\n' "$SIMFLAGS"
  done
  echo "$OUT/ysim: $sobjs $HERE/exports.txt"
  printf '\tg++ -O2 -o $@ %s -Wl,--dynamic-list=%s -ldl -lpthread\n' "$sobjs" "$HERE/exports.txt"
} > "$MK"
if [ $# -gt 2 ]; then shift 2; T=; for t in "$@"; do T="$T $OUT/$t"; done; else T=all; fi
make -s -j${JOBS:-8} -f "$MK" $T
