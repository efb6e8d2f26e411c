#!/bin/bash
# build.sh REPO OUT: compiles the Java binding, its JNI code and the library from REPO's working tree into OUT
set -e
repo=$1; out=$2; here=$(cd "$(dirname "$0")" && pwd)
jdk=$(dirname "$(dirname "$(readlink -f "$(command -v javac)")")")
mkdir -p "$out"
CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
    cargo build --offline -q --release --manifest-path "$repo/imagequant-sys/Cargo.toml" --target-dir "$out/cargo"
rm -rf "$out/classes" "$out/inc"
mkdir -p "$out/classes" "$out/inc/org/pngquant"
javac -nowarn -Xlint:none -cp "$out/classes" -sourcepath "$out/classes" -d "$out/classes" -h "$out/inc" "$repo"/imagequant-sys/org/pngquant/*.java "$here/Peer.java" 2> "$out/javac.log" || { cat "$out/javac.log" >&2; exit 1; }
# names of the headers as the Makefile makes them
for c in PngQuant Image Result; do
    cp "$out/inc/org_pngquant_$c.h" "$out/inc/org/pngquant/$c.h"
done
inc="-I$out/inc -I$repo/imagequant-sys -I$jdk/include -I$jdk/include/linux"
gcc -g -O1 -fPIC -w $inc -c "$repo/imagequant-sys/org/pngquant/PngQuant.c" -o "$out/PngQuant.o"
gcc -g -O1 -fPIC -w $inc -c "$here/guard.c" -o "$out/guard.o"
args=""
for s in malloc free calloc realloc liq_attr_create liq_attr_copy liq_attr_destroy liq_image_create_custom liq_image_create_rgba liq_image_create_rgba_rows \
         liq_image_destroy liq_quantize_image liq_image_quantize liq_result_destroy; do args="$args --redefine-sym $s=guard_$s"; done
objcopy $args "$out/PngQuant.o"
gcc -shared -o "$out/libimagequant.so" "$out/PngQuant.o" "$out/guard.o" "$out/cargo/release/libimagequant_sys.a" -lpthread -ldl -lm
