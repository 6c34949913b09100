#!/bin/bash
# Compiler front end used for the kernels parcels generates: the flags parcels asks for, except that the
# optimisation level is $RT_OPT (default -O0, compile time dominates otherwise) and $RT_CFLAGS are added.
# Objects are cached by preprocessed source + flags inside the scratch directory of the running check.
CCBIN=${RT_CC:-gcc}
unset LD_PRELOAD
args=(); pre=(); out=; src=
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out=$2; shift;;
    -O[0-3s]) args+=("${RT_OPT:--O0}");;
    -g) ;;
    *.c) src=$1;;
    -I*|-D*|-std=*|-m64|-m32) args+=("$1"); pre+=("$1");;
    *) args+=("$1");;
  esac
  shift
done
[ -z "$src" ] && exec "$CCBIN" "${args[@]}" -o "$out"
pp=$("$CCBIN" -E -P "${pre[@]}" "$src" | md5sum) || exit 1
key=$(printf '%s\n' "$pp" "${args[*]}" "$RT_CFLAGS" "$CCBIN" | md5sum | cut -c1-32)
c="$RT_CACHE/$key.so"
if [ -z "$RT_CACHE" ]; then exec "$CCBIN" $RT_CFLAGS "${args[@]}" -o "$out" "$src" -lm; fi
if [ ! -e "$c" ]; then
  t="$RT_CACHE/$key.$$.tmp"
  "$CCBIN" $RT_CFLAGS "${args[@]}" -o "$t" "$src" -lm || exit $?
  mv -f "$t" "$c"
fi
cp "$c" "$out"
