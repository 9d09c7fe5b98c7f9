# Sourced by demo.sh. Compiles chosen sources of the tree in the current
# directory plus a demonstration program into a temporary directory.
#   kit_protos a.proto...   kit_schemas fcp/x/tracing_schema.fbs...
#   kit_run demo.cc "flags" source.cc...
set -eu
KIT_HERE=$(cd "$(dirname "$0")" && pwd)
KIT_REPO=$PWD
KIT_TMP=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$KIT_TMP"' EXIT
mkdir -p "$KIT_TMP/bssl" "$KIT_TMP/gen" "$KIT_TMP/obj" "$KIT_TMP/scratch"
ln -s /usr/include/android/openssl "$KIT_TMP/bssl/openssl"
tar -xzf "$KIT_HERE/kit.tgz" -C "$KIT_TMP"
KIT_GAPI=/opt/fcp/pyvenv/lib/python3.12/site-packages
KIT_SRCS=""

kit_protos() {
  for p in "$@"; do
    d=$KIT_REPO
    [ -f "$KIT_REPO/$p" ] || d=$KIT_TMP/shim/protos
    [ -f "$d/$p" ] || d=$KIT_GAPI
    protoc -I"$KIT_REPO" -I"$KIT_TMP/shim/protos" -I"$KIT_GAPI" -I/usr/include \
      --cpp_out="$KIT_TMP/gen" "$d/$p"
    s=$KIT_TMP/gen/${p%.proto}
    sed -i 's|^ *// @@protoc_insertion_point(class_scope:.*|&\n template <class C> bool ParseFromCord(const C\& c) { return ParseFromString(std::string(c)); }|' "$s.pb.h"
    KIT_SRCS="$KIT_SRCS $s.pb.cc"
  done
}

kit_schemas() {
  gen=$KIT_TMP/traits_generator
  /usr/bin/g++ -std=c++17 -O0 -w -I"$KIT_REPO" \
    "$KIT_REPO/fcp/tracing/tools/tracing_traits_generator.cc" -o "$gen" \
    -lflatbuffers $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so)
  fa="--gen-object-api --gen-generated --reflect-names --bfbs-comments --keep-prefix"
  mkdir -p "$KIT_TMP/gen/fcp/tracing"
  flatc -c $fa -I "$KIT_REPO" -o "$KIT_TMP/gen/fcp/tracing" fcp/tracing/tracing_schema_common.fbs
  for s in "$@"; do
    d=$(dirname "$s"); mkdir -p "$KIT_TMP/gen/$d"
    o=$KIT_TMP/gen/$d/tracing_schema
    flatc -c --reflect-types $fa -I "$KIT_REPO" -o "$KIT_TMP/gen/$d" "$s"
    flatc -b --schema $fa -I "$KIT_REPO" -o "$KIT_TMP/gen/$d" "$s"
    "$gen" "$d/tracing_schema_generated.h" "$o.bfbs" "$s" > "$o.h"
  done
}

# Sources of secure aggregation, both sides, with what they need.
kit_secagg() {
  kit_protos $(ls fcp/secagg/*/*.proto)
  kit_schemas fcp/base/tracing_schema.fbs fcp/secagg/server/tracing_schema.fbs
  KIT_MORE="$(ls fcp/base/*.cc fcp/tracing/*.cc fcp/secagg/shared/*.cc fcp/secagg/client/*.cc fcp/secagg/server/*.cc fcp/secagg/server/aes/*.cc)"
}

kit_run() {
  demo=$1; flags=$2; shift 2
  for f in "$@"; do
    case "$f" in *_test.cc|*_bench.cc|*_main.cc|*_tests.cc|*test_tracing*) continue;; esac
    KIT_SRCS="$KIT_SRCS $KIT_REPO/$f"
  done
  {
    echo "$KIT_HERE/$demo"
    for f in $KIT_SRCS; do echo "$f"; done
  } | xargs -P 8 -I{} sh -c '
    o=$1/obj/$(echo "$2" | tr "/." "__").o
    /usr/bin/g++ -std=c++17 -O0 -w -c -include "$1/shim/verif_prelude.h" \
      -I"$1/shim" -I"$1/bssl" -I"$3" -I"$1/gen" "$2" -o "$o" || exit 255' \
    kit "$KIT_TMP" {} "$KIT_REPO"
  main=$KIT_TMP/obj/$(echo "$KIT_HERE/$demo" | tr "/." "__").o
  mv "$main" "$KIT_TMP/main.o"
  ar rc "$KIT_TMP/all.a" "$KIT_TMP"/obj/*.o
  /usr/bin/g++ "$KIT_TMP/main.o" "$KIT_TMP/all.a" -o "$KIT_TMP/demo" $flags -lprotobuf -lflatbuffers -lre2 -lcurl -lz \
    /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android \
    $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) -lpthread
  cd "$KIT_TMP/scratch"
  "$KIT_TMP/demo"
}
