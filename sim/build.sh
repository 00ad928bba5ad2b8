#!/bin/bash
# Builds the simulator from /repo's working tree into $1 (default /verif/build).
# usage: build.sh [outdir] [repo]
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build}; REPO=${2:-/repo}
mkdir -p "$OUT"; OUT=$(cd "$OUT" && pwd)
W=$(mktemp -d "$OUT/w.XXXXXX"); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gen/cloog"
V=$(sed -n 's/^AC_INIT(\[\?cloog\]\?, *\[\?\([0-9.]*\)\]\?.*/\1/p' "$REPO/configure.ac" | head -1); V=${V:-0.21.1}
IFS=. read -r VMAJ VMIN VREV <<<"$V"
SUBST=(-e "s/@CLOOG_INT_CONFIGURE@/CLOOG_INT_GMP/g" -e "s/@VERSION_MAJOR@/$VMAJ/g" -e "s/@VERSION_MINOR@/$VMIN/g"
       -e "s/@VERSION_REVISION@/${VREV:-0}/g" -e "s/@[A-Z_]*BITS[A-Z_]*@/64/g")
for f in "$REPO"/include/cloog/*.h.in; do sed "${SUBST[@]}" "$f" > "$W/gen/cloog/$(basename "${f%.in}")"; done
echo "#define CLOOG_HEAD \"$V-sim\"" > "$W/gen/version.h"
# the sources include headers as "../include/cloog/x.h": give them a tree where
# the generated ones sit next to the committed ones
mkdir -p "$W/src"; cp -r "$REPO/source" "$REPO/include" "$W/src/"
rm -f "$W/src/include/cloog/int.h" "$W/src/include/cloog/version.h"
cp "$W"/gen/cloog/*.h "$W/src/include/cloog/"; cp "$W/gen/version.h" "$W/src/"; cp "$W/gen/version.h" "$W/src/include/"
for f in "$W"/src/source/*.c.in; do sed -e "s/@[A-Z_]*@/$V-sim/g" "$f" > "${f%.in}"; done
DEFS="-DISL_USING_GMP_VAL=1 -DCLOOG_RUSAGE= -DHAVE_STDINT_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_UNISTD_H=1"
INC="-I$W/src -I$W/src/include"
REDEF="--redefine-syms=$W/redef"
for s in fopen fopen64 freopen freopen64 fdopen tmpfile remove unlink rename open openat creat mkstemp mktemp tmpnam write read lseek close dup \
  fsync fdatasync ftruncate truncate stat lstat fstat access chmod fchmod link mkdir isatty fileno fileno_unlocked getrandom arc4random getcwd getuid gethostname dprintf vdprintf writev pwrite pread symlink sleep usleep nanosleep system popen \
  fgets fgets_unlocked fgetc fgetc_unlocked getc getc_unlocked getline getdelim fread fscanf __isoc99_fscanf __isoc23_fscanf getrusage clock times gettimeofday time getpid getppid getenv secure_getenv \
  clock_gettime atexit exit _exit _Exit abort pthread_mutex_lock isl_malloc_or_die isl_calloc_or_die isl_realloc_or_die \
  __gmpz_abs __gmpz_add __gmpz_add_ui __gmpz_addmul __gmpz_addmul_ui __gmpz_cdiv_q __gmpz_cdiv_r __gmpz_clear __gmpz_cmp __gmpz_cmp_si __gmpz_cmp_ui __gmpz_cmpabs __gmpz_divexact __gmpz_divexact_ui __gmpz_divisible_p __gmpz_fdiv_q __gmpz_fdiv_r __gmpz_gcd __gmpz_get_si __gmpz_get_str __gmpz_init __gmpz_init_set __gmpz_init_set_si __gmpz_lcm __gmpz_mod __gmpz_mul __gmpz_mul_si __gmpz_mul_ui __gmpz_neg __gmpz_set __gmpz_set_si __gmpz_set_str __gmpz_set_ui __gmpz_sub __gmpz_sub_ui __gmpz_submul __gmpz_submul_ui __gmpz_swap __gmpz_tdiv_q __gmpz_tdiv_r __gmpz_ui_sub isl_val_get_den_gmp isl_val_get_num_gmp isl_val_int_from_gmp; do echo "$s __wrap_$s"; done > "$W/redef"
SRCS=$(cd "$W/src/source" && ls *.c isl/*.c | grep -v -e mp_get_memory -e '^matrix/')
build_variant() { # name extra-flags
  mkdir -p "$W/$1"
  for s in $SRCS; do
    o="$W/$1/$(echo "$s" | tr / _).o"
    printf '%s\0' "clang -w -O1 -g -ffile-prefix-map=$W/src=repo -fno-omit-frame-pointer -fno-optimize-sibling-calls -fno-builtin-printf -fsanitize=address -fsanitize-coverage=trace-pc-guard $2 $DEFS $INC $([ "$s" = cloog.c ] && echo -Dmain=cloog_main) -c '$W/src/source/$s' -o '$o' && objcopy $REDEF '$o'"
  done
}
{ build_variant main ""; build_variant pat "-ftrivial-auto-var-init=pattern"; build_variant zero "-ftrivial-auto-var-init=zero";
  for s in sim_core sim_alloc sim_script sim_gmp; do printf '%s\0' "clang -w -O2 -g -fno-omit-frame-pointer -fno-optimize-sibling-calls -fno-builtin $DEFS -I$HERE $INC -c '$HERE/$s.c' -o '$W/$s.o'"; done
} | xargs -0 -P 8 -I{} sh -c '{} || { echo "compile failed: {}" >&2; exit 255; }'
for m in begin end; do echo "void sim_cloog_$m(void) { __asm__ volatile(\"nop\"); }" > "$W/mark_$m.c"; clang -O1 -c "$W/mark_$m.c" -o "$W/mark_$m.o"; done
for v in main pat zero; do
  clang -fsanitize=address -no-pie -rdynamic "$W"/sim_*.o "$W/mark_begin.o" "$W"/$v/*.o "$W/mark_end.o" -lisl -lgmp -lm -lpthread -o "$OUT/sim_$v.new"
  mv "$OUT/sim_$v.new" "$OUT/sim_$v"
done
