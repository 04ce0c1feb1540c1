# builds the sources of the current directory (/repo) with stand-ins for the missing libraries
# usage: . kit.sh; kit_init [define lines]; kit_demo demo.cpp -> $T/demo; kit_prog -> $T/prog
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
: "${CCS:=VB}" "${PUSHER:=BORIS_ADAPTIVE}" "${SPATIAL:=FLAT}" "${VELOCITY:=THERMAL}"
kit_init() {
  cp -r src include "$T/"; rm -f "$T/include/defines.hpp"
  { for x in 'CXXFLAGS "x"' 'PACKAGE_NAME "PiCoPiC"' 'PACKAGE_VERSION "demo"' 'PACKAGE_DEPS "x"' 'PACKAGE_STRING "x"' 'PACKAGE_TARNAME "x"' 'PACKAGE_URL ""' 'PACKAGE_BUGREPORT ""' 'REL_LIMIT 5e7' \
      "SWITCH_CCS_$CCS" SWITCH_MAXWELL_SOLVER_YEE "SWITCH_PLASMA_SPATIAL_$SPATIAL" "SWITCH_PLASMA_VELOCITY_$VELOCITY" "SWITCH_PUSHER_$PUSHER" ENABLE_HDF5 "$@"; do echo "#define $x"; done; } > "$T/include/defines.hpp"
  KF="-std=c++17 -O1 -g -w -fno-access-control $KFLAGS -I$T/include -I$HERE/shim -I$HERE"
  mkdir "$T/o"; (cd "$T"; find src -name '*.cpp' | xargs -P 8 -I{} sh -c 'g++ '"$KF"' -c {} -o o/$(echo {} | tr / _).o') || { echo "demo: build failed" >&2; exit 3; }
}
kit_demo() { g++ $KF "$HERE/$1" $(ls "$T"/o/*.o | grep -v PiCoPiC.cpp) -o "$T/demo" -lpthread || exit 3; }
kit_prog() { g++ $KF "$T"/o/*.o -o "$T/prog" -lpthread || exit 3; }
