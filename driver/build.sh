#!/bin/bash
# Builds /repo's current working tree (library + utilities) out of tree, and the
# scenario harness against it.  usage: build.sh OUTDIR [asan]
set -eu
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
export CC=/usr/bin/gcc
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
flags="-g -O1 -w"
[ "${2:-}" = asan ] && flags="$flags -fsanitize=address -fno-omit-frame-pointer"
mkdir -p "$out"
cmake -S "$repo" -B "$out/lib" -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_C_FLAGS="$flags" \
  -DCMAKE_DISABLE_FIND_PACKAGE_SWIG=ON >"$out/cmake.log" 2>&1 || { tail -20 "$out/cmake.log" >&2; exit 3; }
ninja -C "$out/lib" >"$out/ninja.log" 2>&1 || { tail -40 "$out/ninja.log" >&2; exit 3; }
libdir=$out/lib/src/oifitslib
$CC $flags -std=gnu11 -I"$repo/src/oifitslib" -o "$out/oih" "$here/harness/oih.c" \
  -L"$libdir" -Wl,-rpath,"$libdir" -loifits $(pkg-config --cflags --libs cfitsio glib-2.0) -lm
