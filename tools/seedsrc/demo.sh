#!/bin/bash
# run in /repo after the build; exit 0 iff the property holds on this scenario
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
I="-ISLIP_LU/Include -ISLIP_LU/Source -ISuiteSparse_config -IAMD/Include -IAMD/Source -ICOLAMD/Include -I$D"
C="gcc -g -O1 -w -fcommon -fsanitize=address,undefined -fno-sanitize=leak -fno-sanitize-recover=all $I"
n=0
for f in SLIP_LU/Source/*.c SuiteSparse_config/SuiteSparse_config.c; do n=$((n+1)); $C -c $f -o $T/s$n.o & [ $((n % 12)) = 0 ] && wait; done
for f in AMD/Source/*.c COLAMD/Source/colamd.c; do n=$((n+1)); $C -c $f -o $T/i$n.o & $C -DDLONG -c $f -o $T/l$n.o & [ $((n % 8)) = 0 ] && wait; done
wait
$C "$D/demo.c" $T/*.o -lmpfr -lgmp -lm -o $T/demo || exit 9
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1
cd $T && timeout 100 ./demo
