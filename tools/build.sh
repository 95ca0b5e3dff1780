#!/bin/bash
# build.sh OUTDIR VARIANT...   builds, from /repo's working tree, into OUTDIR/VARIANT:
#   libgrpp (always from scratch, with the project's own CMake files) and the harness binary linked with it.
# Variants: plain (as the project builds it), asan (address+undefined), tsan, drivers (plain + both driver programs)
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=/usr/bin/gcc-13 CXX=/usr/bin/g++-13 FC=/usr/bin/gfortran-13
unset CFLAGS CXXFLAGS FFLAGS LDFLAGS
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1; shift
mkdir -p "$OUT"
H=$( (cat "$HERE"/harness/*.?pp "$HERE"/tools/build.sh; cat "$REPO"/libgrpp/*.h; echo "$REPO") | sha256sum | cut -c1-16)
for v in "$@"; do
    case $v in
        plain|drivers) flags=""; hflags="-O2 -g"; opt="" ;;
        asan) flags="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g"; hflags="-O1 -g -DVERIF_ASAN -D_GLIBCXX_SANITIZE_VECTOR"; opt="$flags" ;;
        tsan) flags="-fsanitize=thread -g"; hflags="-O1 -g -DVERIF_TSAN"; opt="$flags" ;;
        *) echo "unknown variant $v" >&2; exit 3 ;;
    esac
    rm -rf "${OUT:?}/$v"
    mkdir -p "$OUT/$v"
    tgt="libgrpp"
    [ $v = drivers ] && tgt="libgrpp test_libgrpp_c.x test_libgrpp_f90.x libgrpp_compare_matrices.x"
    {
        cmake -S "$REPO" -B "$OUT/$v/lib" -G Ninja -DFETCHCONTENT_FULLY_DISCONNECTED=ON --no-warn-unused-cli -DCMAKE_C_FLAGS="$flags" &&
        ninja -C "$OUT/$v/lib" $tgt
    } > "$OUT/$v/lib.log" 2>&1 || { echo "build of $REPO ($v) failed" >&2; tail -30 "$OUT/$v/lib.log" >&2; exit 3; }
    hv=$v; [ $v = drivers ] && hv=plain
    O="$HERE/build/obj-$hv-$H"
    mkdir -p "$O"
    (
        flock 9
        printf '%s\n' "$HERE"/harness/*.cpp | xargs -P 8 -I{} sh -c '
            o="$1/$(basename "$2").o"
            [ -f "$o" ] || { '"$CXX"' -std=c++17 '"$hflags"' -fopenmp '"$opt"' -I"$3/libgrpp" -c "$2" -o "$o.tmp" && mv "$o.tmp" "$o"; }' _ "$O" {} "$REPO"
    ) 9> "$O/lock" > "$OUT/$v/harness.log" 2>&1 || { echo "build of the harness ($v) failed" >&2; tail -30 "$OUT/$v/harness.log" >&2; exit 3; }
    W=-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=posix_memalign,--wrap=aligned_alloc
    $CXX -fopenmp $opt $W -o "$OUT/$v/vprop" "$O"/*.o "$(find "$OUT/$v/lib" -name 'liblibgrpp.a' | head -1)" -lm -ldl || exit 3
done
