#!/bin/bash
# run.sh <check id> [args]   builds the check from /repo's working tree in a fresh directory, runs it, removes the directory
id=$1; shift
V=$(cd "$(dirname "$0")" && pwd); R=${VERIF_REPO:-/repo}
T=$(mktemp -d "${TMPDIR:-/tmp}/verif.$id.XXXXXX") || exit 3
trap 'rm -rf "$T"' EXIT
INC="-I$R/include -I$R/sljit/sljit_src"
SAN=""; CCO="-O1 -g -w"; EXTRA=""; PW=1; LIBS="-lm -lpthread"; SRCDEF=""; MULTI=1
case $id in
  C08|C09|C10|C11) SAN="-fsanitize=address -fno-omit-frame-pointer";;
esac
case $id in
  C13|C14|C19) PW=0;;
  C15) PW=0; EXTRA="exalloc";;
  C20) PW=0; CCO="$CCO -include $V/src/vdalloc.h -DSLJIT_MALLOC(s,d)=vd_malloc(s,d) -DSLJIT_FREE(p,d)=vd_free(p,d)";;
  C16) PW=0; EXTRA="regex"; CCO="$CCO -include $V/src/vfalloc.h -DSLJIT_MALLOC(s,d)=vf_malloc(s) -DSLJIT_FREE(p,d)=vf_free(p)";;
  C17|C18) SAN="-fsanitize=address -fno-omit-frame-pointer"; EXTRA="syslib"; LIBS="$LIBS -lffi -luv";;
esac
jobs_=()
build() { "$@" >"$T/log.$RANDOM$RANDOM" 2>&1 || { echo FAILED >"$T/failed"; }; }
[ $PW = 1 ] && { build gcc -c $CCO $SAN $INC "$R/pwart/pwart.c" -o "$T/pwart.o" & }
[ "$EXTRA" = exalloc ] && for v in 0 1 2; do build gcc -c $CCO $INC -DVARIANT=$v "$V/src/exalloc_tu.c" -o "$T/ex$v.o" & done
[ "$EXTRA" = exalloc ] || build gcc -c $CCO $SAN $INC -DSLJIT_CONFIG_AUTO=1 "$R/sljit/sljit_src/sljitLir.c" -o "$T/sljit.o" &
[ "$EXTRA" = regex ] && { build gcc -c $CCO $SAN $INC -DSLJIT_CONFIG_AUTO=1 -I"$R/sljit/regex_src" "$R/sljit/regex_src/regexJIT.c" -o "$T/regex.o" & }
[ "$EXTRA" = syslib ] && { build gcc -c $CCO $SAN $INC -I"$R" -I"$V/src/fakeuvwasi" "$V/src/syslib_tu.c" -o "$T/syslib.o" & build gcc -c $CCO $SAN $INC -I"$R" "$V/src/syslib_off_tu.c" -o "$T/sysoff.o" & }
[ $id = C18 ] && build gcc -c $CCO $SAN $INC -I"$R" -I"$R/pwart_syslib/include" "$V/src/wasiexec_tu.c" -o "$T/wexec.o" &
build g++ -std=c++17 -O1 -g -w $SAN -I"$V/src" $INC -I"$R/sljit/regex_src" -I"$R/pwart_syslib/include" -I"$R" -c "$V/checks/$id.cpp" -o "$T/check.o" &
wait
if [ -e "$T/failed" ]; then cat "$T"/log.* | head -60; echo "$id: build failed"; exit 3; fi
# units compiled more than once keep only the names the check uses
for f in ex0:ex_posix ex1:ex_prot ex2:ex_wx; do [ -e "$T/${f%:*}.o" ] && objcopy --keep-global-symbol="${f#*:}" "$T/${f%:*}.o"; done
[ -e "$T/sysoff.o" ] && objcopy --wildcard --keep-global-symbol='off_*' "$T/sysoff.o"
g++ $SAN "$T"/*.o -o "$T/check" $LIBS || { echo "$id: link failed"; exit 3; }
rm -f "$T"/*.o "$T"/log.*
export VERIF_TMP="$T" VERIF_ROOT="$V"
export ASAN_OPTIONS=${ASAN_OPTIONS:-abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:max_free_fill_size=2048:free_fill_byte=91}
cd "$V" && "$T/check" "$@"
