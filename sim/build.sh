#!/bin/bash
# build.sh OUTDIR VARIANT : builds the simulation harness plus the repository's
# current working tree (REPO, default /repo) into OUTDIR/simrun.
#   plain  -O1, asserts on (as the repository's Debug build)
#   asan   address + undefined sanitizers on the repository's code
#   patt / zero  automatic variables initialised with a pattern / zero
set -eu
OUT=$1; VARIANT=${2:-plain}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
rm -rf "${OUT:?}/repo"
mkdir -p "$OUT/repo" "$OUT/h"
GLIB=$(pkg-config --cflags glib-2.0)
LIBS="$(pkg-config --libs glib-2.0) -lcfitsio -lm -ldl"
# the distribution compiler turns on _FORTIFY_SOURCE: off here, so that a fortify abort can
# only come from a precompiled library (the asan variant watches the repository itself)
INC="-U_FORTIFY_SOURCE -I$REPO/src/oifitslib -I$REPO/src -I$REPO/src/util"
case $VARIANT in
  plain) RF="-O1 -g"; LF="";;
  asan)  RF="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"; LF="-fsanitize=address,undefined";;
  patt)  RF="-O1 -g -ftrivial-auto-var-init=pattern"; LF="";;
  zero)  RF="-O1 -g -ftrivial-auto-var-init=zero"; LF="";;
  *) echo "unknown variant $VARIANT" >&2; exit 2;;
esac
J="$OUT/jobs"; : > "$J"
SYMS=; for f in malloc calloc realloc free strdup strndup asprintf vasprintf; do SYMS="$SYMS --redefine-sym $f=sim_$f"; done
for f in "$REPO"/src/oifitslib/*.c; do
  b=$(basename "$f" .c)
  case $b in oitable-demo)
    echo "gcc -w -std=gnu99 $RF $INC $GLIB -Dmain=oimain_demo -c $f -o $OUT/repo/$b.o && objcopy $SYMS --keep-global-symbol=oimain_demo $OUT/repo/$b.o" >> "$J"; continue;;
  esac
  echo "gcc -w -std=gnu99 $RF $INC $GLIB -c $f -o $OUT/repo/$b.o && objcopy $SYMS $OUT/repo/$b.o" >> "$J"
done
for t in merge filter upgrade check; do
  echo "gcc -w -std=gnu99 $RF $INC $GLIB -Dmain=oimain_$t -c $REPO/src/util/oifits-$t.c -o $OUT/repo/util_$t.o && objcopy $SYMS --keep-global-symbol=oimain_$t $OUT/repo/util_$t.o" >> "$J"
done
# helper sources without a main() of their own, should there be any
for f in "$REPO"/src/util/*.c; do
  case $(basename "$f") in oifits-merge.c|oifits-filter.c|oifits-upgrade.c|oifits-check.c) continue;; esac
  grep -qE '\bmain[[:space:]]*\(' "$f" && continue
  b=$(basename "$f" .c)
  echo "gcc -w -std=gnu99 $RF $INC $GLIB -c $f -o $OUT/repo/utilx_$b.o && objcopy $SYMS $OUT/repo/utilx_$b.o" >> "$J"
done
HF="-std=c++17 -O1 -g -w"
[ "$VARIANT" = asan ] && HF="$HF -fno-omit-frame-pointer -DSIM_ASAN"
for f in "$HERE"/*.cc; do
  echo "g++ $HF $INC $GLIB -c $f -o $OUT/h/$(basename "$f" .cc).o" >> "$J"
done
xargs -P 8 -I{} sh -c '{} || exit 255' < "$J" > "$OUT/log" 2>&1 || { cat "$OUT/log" >&2; exit 1; }
g++ -rdynamic $LF -o "$OUT/simrun" "$OUT"/h/*.o "$OUT"/repo/*.o $LIBS >> "$OUT/log" 2>&1 || { cat "$OUT/log" >&2; exit 1; }
