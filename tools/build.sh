#!/bin/bash
# Builds the simulator around the sources of REPO's current working tree.
# usage: build.sh OUTDIR        (REPO defaults to /repo)
# Result: OUTDIR/simbin.static (libduma.a), OUTDIR/simbin.preload (libduma.so as GNUmakefile builds it: no leak
# detection) and OUTDIR/simbin.so (shared library with leak detection)
set -eu
export LC_ALL=C
OUT=$1
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
SIM=$HERE/sim
mkdir -p "$OUT"
OUT=$(cd "$OUT" && pwd)
SRC=$OUT/src_tree
mkdir -p "$SRC"
find "$SRC" -mindepth 1 -delete
# the sources as they are now, without version control, build output and documents
( cd "$REPO" && find . -path ./.git -prune -o -path ./_build -prune -o -type f \( -name '*.[ch]' -o -name '*.cpp' -o -name '*.hpp' -o -name '*.inc' -o -name '*.cc' -o -name '*.hh' -o -name '*.inl' \) -print0 \
  | tar cf - --null -T - ) | tar xf - -C "$SRC"
cd "$SRC"
# the generated headers
rm -f duma_config.h verinfo.h
gcc -o createconf createconf.c
./createconf >/dev/null 2>&1 || true
[ -s duma_config.h ] || { cp "$REPO/duma_config.h" duma_config.h; }
printf '#ifndef GIT_SOURCE_VERSION_VERINFO_H\n#define GIT_SOURCE_VERSION_VERINFO_H\n#define GIT_SOURCE_VERSION "sim"\n#endif\n' > verinfo.h

SRC2=$OUT/src_tree_preload
mkdir -p "$SRC2"
find "$SRC2" -mindepth 1 -delete
cp -R "$SRC/." "$SRC2/"
( cd "$SRC2" && rm -f duma_config.h && gcc -DDUMA_SO_NO_LEAKDETECTION -o createconf createconf.c && { ./createconf >/dev/null 2>&1 || true; } && { [ -s duma_config.h ] || { cp "$SRC/duma_config.h" .; }; } )

REDEF=$OUT/redefine.syms
: > "$REDEF"
for s in _exit __stack_chk_fail abort raise atexit close environ getenv getpid getpagesize kill memset mmap mmap64 mprotect munmap open open64 lseek lseek64 write sysconf sched_yield \
  usleep nanosleep sleep pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock \
  pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_spin_init pthread_spin_lock pthread_spin_trylock pthread_spin_unlock \
  pthread_once pthread_self sem_init sem_wait sem_trywait sem_post; do echo "$s sim_$s" >> "$REDEF"; done
cat >> "$REDEF" <<'X'
exit sim_exit
_Exit sim__Exit
quick_exit sim_quick_exit
__cxa_atexit sim_cxa_atexit
__sysconf sim___sysconf
_ZSt15set_new_handlerPFvvE sim_set_new_handler
_ZSt15get_new_handlerv sim_get_new_handler
X
for s in malloc calloc free memalign posix_memalign realloc valloc malloc_usable_size strdup memcpy memmove strcpy strncpy strcat strncat aligned_alloc reallocarray \
  _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t; do echo "$s dut_$s" >> "$REDEF"; done

DEFS="-DDUMA_OLD_NEW_MACRO"
INC="-I. -Isrc"
build_variant() {
  V=$1; D=$2; STD=$3
  cd "$4"
  B=$OUT/obj.$V
  mkdir -p "$B"
  find "$B" -mindepth 1 -delete
  # every C and C++ source of the library proper
  pids=
  for f in src/*.c; do
    gcc $DEFS $D -g -O0 -fPIC -fno-builtin -fstack-protector-strong -fsanitize=thread $INC -w -c "$f" -o "$B/$(basename "$f").o" & pids="$pids $!"
  done
  for f in src/*.cpp; do
    g++ -std=$STD $DEFS $D -g -O0 -fPIC -fno-builtin -fno-sized-deallocation -fstack-protector-strong -fsanitize=thread $INC -w -c "$f" -o "$B/$(basename "$f").o" & pids="$pids $!"
  done
  g++ -std=$STD $DEFS $D -g -O0 -fPIC -fno-builtin -fno-sized-deallocation -fsanitize=thread $INC -w -c "$SIM/client.cpp" -o "$B/client.o" & pids="$pids $!"
  for p in $pids; do wait $p; done
  ld -r -o "$B/all.o" "$B"/*.o
  objcopy --redefine-syms="$REDEF" \
    --rename-section .init_array=duma_ctors --rename-section .fini_array=duma_dtors \
    --rename-section .ctors=duma_ctors --rename-section .dtors=duma_dtors "$B/all.o" "$B/dut.o"
  echo "extern \"C\" const char *variant_name; const char *variant_name = \"$V\";" > "$B/variant.cpp"
  g++ -O1 -c "$B/variant.cpp" -o "$B/variant.o"
  g++ -static -no-pie -o "$OUT/simbin.$V" "$B/variant.o" "$OUT"/simobj/*.o "$B/dut.o" -lpthread
}
mkdir -p "$OUT/simobj"
# the simulator itself does not depend on the tree under test
key=$(cat "$SIM"/*.cpp "$SIM"/*.h | sha256sum)
if [ "$(cat "$OUT/simobj.key" 2>/dev/null)" != "$key" ]; then
  find "$OUT/simobj" -mindepth 1 -delete
  pids=
  for f in rt vm gen model report main; do
    g++ -std=gnu++17 -O2 -g -fno-pie -Wall -Wno-unused-function -Wno-format-truncation -c "$SIM/$f.cpp" -o "$OUT/simobj/$f.o" & pids="$pids $!"
  done
  for p in $pids; do wait $p; done
  echo "$key" > "$OUT/simobj.key"
fi
build_variant static "" gnu++17 "$SRC" & a=$!
build_variant so "-DPIC -DDUMA_SO_LIBRARY" gnu++17 "$SRC" & b=$!
build_variant preload "-DPIC -DDUMA_SO_LIBRARY" gnu++17 "$SRC2" & c=$!
wait $a; wait $b; wait $c
