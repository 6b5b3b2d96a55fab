#!/bin/bash
# run from the repository root; ./shim stands in for the absent libsbp/libswiftnav
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
mkdir "$T/gen"; python3 "$D/shim/gen_sbp.py" "$T/gen"
I="-I$D/shim/include -I$T/gen -I$D/shim/src -Ic -I$D"
for m in librtcm libubx libixcom gnss_converters gnss_converters_extra; do I="$I -Ic/$m/include -Ic/$m/src"; done
I="$I -Ic/gnss_converters/src/ubx_ephemeris"
F="$D/shim/src/*.c $T/gen/sbp_gen.c c/librtcm/src/*.c c/libubx/src/*.c c/libixcom/src/*.c c/gnss_converters/src/*.c c/gnss_converters/src/*/*.c c/gnss_converters_extra/src/*.c"
ls $F | grep -v '_main.c$' | xargs -P8 -I{} sh -c 'gcc -std=gnu11 -D_GNU_SOURCE -fno-strict-aliasing -w -O1 -g @SAN@ '"$I"' -c {} -o '"$T"'/$(echo {} | tr / _).o'
g++ -std=c++17 -fpermissive -w -O1 -g @SAN@ $I "$D/demo.cc" "$T"/*.o -o "$T/demo" -lm -lpthread
timeout 100 "$T/demo"
