#!/bin/bash
# Builds the library sources of the current directory with demo.cc (which lies
# beside this script) and runs it: exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
SSL=openssl FLAGS= LINK=
[ -f "$D/demo.cfg" ] && . "$D/demo.cfg"
if [ "$SSL" = boringssl ]; then
  A=/usr/lib/x86_64-linux-gnu/android
  INC="-I/usr/include/android"; LIB="$A/libssl.so $A/libcrypto.so -Wl,-rpath,$A"
else
  INC=; LIB="-lssl -lcrypto"
fi
CF="-w -O0 $FLAGS -pthread $INC -I$R -I$D"
{ find "$R/src" \( -name '*.cc' -o -name '*.c' \) ! -name '*_test.cc' ! -name '*_test_util.cc' ! -name 'fake_*'
  ls "$D"/*.cc "$D"/upb/*.c; } > "$W/list"
export W CF
build1() {
  o="$W/$(echo "$1" | md5sum | cut -c1-12).o"
  case "$1" in *.c) gcc $CF -c "$1" -o "$o";; *) g++ -std=c++14 $CF -c "$1" -o "$o";; esac
}
export -f build1
xargs -P 8 -I{} bash -c 'build1 {}' < "$W/list" || { echo "demo: does not build"; exit 2; }
g++ $FLAGS -o "$W/demo" "$W"/*.o $LINK $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format absl_synchronization absl_hash absl_raw_hash_set absl_bad_variant_access absl_bad_optional_access) $LIB -pthread || { echo "demo: does not link"; exit 2; }
timeout 120 "$W/demo"
rc=$?
[ $rc = 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
