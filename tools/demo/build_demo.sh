# Sourced by demo.sh (cwd: /repo). Builds the library's LLVM side and demo.cpp in
# a private scratch directory ($W, removed on exit) and leaves the program in $W/demo
set -e
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
W=$(mktemp -d /tmp/drdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir -p $W/gen/resources $W/cache
DEF="-DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DLZ4LIB_VISIBILITY="
INC="-I$HERE/shim -I$HERE -I$REPO -I$REPO/include -I$REPO/ext/lz4 -I$W/gen"
for s in kernels_dict kernels_75; do
  cmake -DBIN2C_OUTPUT=$W/gen/resources/$s.c -DBIN2C_SYMBOLS=$s -DBIN2C_INPUTS=$REPO/resources/$s.lz4 -DBIN2C_TYPE=char -DBIN2C_HEADER=resources/kernels.h -P $REPO/cmake/bin2c.cmake >/dev/null
  gcc -w -c $W/gen/resources/$s.c -o $W/$s.o -I$REPO -I$REPO/resources
done
gcc -O2 -w -DLZ4LIB_VISIBILITY= -c $REPO/ext/lz4/lz4.c -o $W/lz4.o
gcc -O2 -w -c $REPO/ext/lz4/xxhash.c -o $W/xxhash.o
ls $REPO/src/*.cpp | grep -v -e '/metal_' -e '/optix_' > $W/list
echo $HERE/pool.cpp >> $W/list; echo $HERE/demo.cpp >> $W/list
xargs -P 8 -I{} sh -c "g++ -O1 -g1 -std=c++17 -pthread -w -fno-omit-frame-pointer $EXTRA $DEF $INC -c {} -o $W/\$(basename {}).o" < $W/list || exit 3
g++ $EXTRA -o $W/demo $W/*.o -rdynamic -pthread -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -Wl,--no-as-needed -l:libLLVM.so -ldl || exit 3
export DRJIT_CACHE_DIR=$W/cache
