#!/bin/bash
# builds demo.c against the daemon's objects in ./_build and runs it in a scratch directory
set -eu
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'cd /; rm -rf "$W"' EXIT
objcopy --redefine-sym main=fcron_main _build/fcron.o "$W/fcron.o"
O="$W/fcron.o"
for n in cl subs mem save temp_file log database job conf u_list exe_list lavg_list env_list fcronconf mail filesubs select fcrondyn_svr suspend; do
    objcopy --globalize-symbol=dummy_none "_build/$n.o" "$W/$n.o"; O="$O $W/$n.o"
done
WR=""; for w in $(sed -n 's/^.*WRAP: *\([a-z_0-9 ]*\).*$/\1/p' "$D/demo.c"); do WR="$WR -Wl,--wrap=$w"; done
gcc -w -O0 -g -I"$R" -I"$R/_build" -I/usr/include/selinux -DHAVE_CONFIG_H -o "$W/demo" "$D/demo.c" $O $WR -lpam -laudit -lselinux -lcrypt
cd "$W"; mkdir spool; cd spool
timeout 60 "$W/demo" >"$W/out" 2>&1 || { rc=$?; tail -20 "$W/out"; echo "demo: failed ($rc)"; exit 1; }
tail -3 "$W/out"
