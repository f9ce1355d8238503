#!/bin/bash
# Builds the simulator from /repo's working tree into $VERIF_BUILD (default /verif/build). Incremental.
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$here/../build}
REPO=${VERIF_REPO:-/repo}
mkdir -p "$B"
B=$(cd "$B" && pwd)
exec 9>"$B/.lock"; flock 9
export CC=gcc CXX=g++ CCACHE_DISABLE=1
cfg() {
  cmake -S "$REPO" -B "$B/nimble" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error \
    -DCMAKE_CXX_COMPILER_LAUNCHER="$here/cxxlaunch.sh" -DNimbleSM_ENABLE_UNIT_TESTS=OFF -DNimbleSM_ENABLE_MPI=ON \
    -DNimbleSM_ENABLE_TRILINOS=ON -DNimbleSM_USE_TRILINOS_EXODUS=OFF -Dexodus_LIBRARY=/usr/lib/x86_64-linux-gnu/libexoIIv2c.so \
    -Dexodus_INCLUDE_DIR=/usr/include -DFETCHCONTENT_FULLY_DISCONNECTED=ON > "$B/cmake.log" 2>&1
}
[ -f "$B/nimble/build.ninja" ] || cfg || { cat "$B/cmake.log"; exit 2; }
ninja -C "$B/nimble" nimble > "$B/ninja.log" 2>&1 || { rm -rf "$B/nimble"; cfg && ninja -C "$B/nimble" nimble > "$B/ninja.log" 2>&1; } || { tail -50 "$B/ninja.log"; exit 2; }
mkdir -p "$B/obj"
inc=$(sed -n '/^  INCLUDES = /{s///p;q}' "$B/nimble/build.ninja")
def=$(sed -n '/^  DEFINES = /{s///p;q}' "$B/nimble/build.ninja")
exo=/usr/lib/x86_64-linux-gnu/libexoIIv2c.so
nm -D "$exo" | awk '$2=="T" && $3 ~ /^ex_(get_|put_|open_int|create_int|close|update|inquire)/{print $3}' > "$B/exsyms"
awk -f "$here/exstubs.awk" "$B/exsyms" > "$B/exstubs.S.new"
cmp -s "$B/exstubs.S.new" "$B/exstubs.S" 2>/dev/null || cp "$B/exstubs.S.new" "$B/exstubs.S"
cat > "$B/sim.ninja.new" <<N
rule cxx
  command = g++ -O1 -w -MMD -MF \$out.d \$flags -c \$in -o \$out
  depfile = \$out.d
  deps = gcc
rule cc
  command = gcc -w -c \$in -o \$out
rule harness
  command = g++ -O1 -w -MMD -MF \$out.d \$flags -c \$in -o \$out || { echo "\$in does not compile against this tree"; echo "int \$fn(int, char**) { return 77; }" > \$out.cc && echo "\$out: \$in" > \$out.d && g++ -c \$out.cc -o \$out; }
  depfile = \$out.d
  deps = gcc
rule link
  command = g++ -rdynamic -o \$out.tmp \$in \$libs && mv -f \$out.tmp \$out
build $B/obj/server.o: cxx $here/server.cc
  flags = -std=c++17 -U_FORTIFY_SOURCE
build $B/obj/simio.o: cxx $here/simio.cc
  flags = -std=c++17 -U_FORTIFY_SOURCE -fno-builtin
build $B/obj/simmpi.o: cxx $here/simmpi.cc
  flags = -std=c++17 -I/usr/lib/x86_64-linux-gnu/openmpi/include
build $B/obj/exstubs.o: cxx $B/exstubs.S
  flags =
build $B/obj/mpistubs.o: cc $B/mpistubs.c
build $B/obj/vecred.o: harness $here/vecred.cc
  flags = $def $inc -I$here -std=c++14
  fn = vecred_main
build $B/obj/msg.o: harness $here/msg.cc
  flags = $def $inc -I$here -std=c++14
  fn = msg_main
build $B/obj/main.o: cxx $REPO/src/nimble_main.cc
  flags = $def $inc -std=c++14 -Dmain=nimble_app_main
build $B/simserver: link $B/obj/server.o $B/obj/simio.o $B/obj/exstubs.o $B/obj/simmpi.o $B/obj/mpistubs.o $B/obj/vecred.o $B/obj/msg.o $B/obj/main.o $B/nimble/libnimble.a
  libs = -L/usr/lib/x86_64-linux-gnu -L/usr/lib/x86_64-linux-gnu/openmpi/lib -l:libtrilinos_tpetra.so.13.2 -l:libtrilinos_tpetraclassicnodeapi.so.13.2 -l:libtrilinos_kokkoskernels.so.13.2 -l:libtrilinos_teuchoskokkoscomm.so.13.2 -l:libtrilinos_teuchoskokkoscompat.so.13.2 -l:libtrilinos_teuchosremainder.so.13.2 -l:libtrilinos_teuchosnumerics.so.13.2 -l:libtrilinos_teuchoscomm.so.13.2 -l:libtrilinos_teuchosparameterlist.so.13.2 -l:libtrilinos_teuchosparser.so.13.2 -l:libtrilinos_teuchoscore.so.13.2 -l:libtrilinos_kokkosalgorithms.so.13.2 -l:libtrilinos_kokkoscontainers.so.13.2 -l:libtrilinos_kokkoscore.so.13.2 -llapack -lblas -Wl,--no-as-needed -lexoIIv2c -Wl,--as-needed -lmpi_cxx -lmpi -ldl
N
cmp -s "$B/sim.ninja.new" "$B/sim.ninja" 2>/dev/null || cp "$B/sim.ninja.new" "$B/sim.ninja"
# MPI functions the code refers to and the simulated layer does not have (most come from the inline C++ bindings of mpi.h
# and are never called) must not silently be the real ones: a call of one ends the run as not simulated.
ninja -C "$B" -f "$B/sim.ninja" "$B/obj/simmpi.o" "$B/obj/main.o" > "$B/sim.log" 2>&1 || { tail -60 "$B/sim.log"; exit 2; }
nm -u "$B/nimble/libnimble.a" "$B/obj/main.o" 2>/dev/null | awk '$1=="U" && $2 ~ /^MPI_[A-Z]/{print $2}' | sort -u > "$B/mpi.used"
nm "$B/obj/simmpi.o" | awk '$2=="T"{print $3}' | sort -u > "$B/mpi.have"
{ echo 'void sim_unsimulated(const char*);'; comm -23 "$B/mpi.used" "$B/mpi.have" | awk '{print "int " $1 "() { sim_unsimulated(\"" $1 "\"); return 0; }"}'; } > "$B/mpistubs.c.new"
cmp -s "$B/mpistubs.c.new" "$B/mpistubs.c" 2>/dev/null || cp "$B/mpistubs.c.new" "$B/mpistubs.c"
ninja -C "$B" -f "$B/sim.ninja" "$B/simserver" > "$B/sim.log" 2>&1 || { tail -60 "$B/sim.log"; exit 2; }
