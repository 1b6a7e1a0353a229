#!/bin/bash
# Builds the nginx modules of /repo's working tree (and the in-process harness
# module) into /verif/.build/<flavor>. Usage: build.sh [plain|asan]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LC_ALL=C
set -e
FLAVOR=${1:-plain}
V=$(cd "$(dirname "$0")/.." && pwd)
export PV_REPO=${PV_REPO:-/repo} PV_SHIM=$V/harness/shim
B=${PV_BUILD:-$V/.build}/$FLAVOR
mkdir -p "$B"
exec 9>"$B.lock"; flock 9
case $FLAVOR in
    plain) OPT='-g -O1 -Wno-error -MMD -MP'; LDO= ;;
    asan)  OPT='-g -O1 -Wno-error -MMD -MP -fsanitize=address -fno-omit-frame-pointer'; LDO='-fsanitize=address -shared-libasan' ;;
esac
[ $FLAVOR = asan ] && LDO='-fsanitize=address'
T=$(cat "$0" "$PV_SHIM"/collect.sh "$PV_SHIM"/*/config $PV_REPO/modules/*/config /usr/share/nginx/src/conf_flags | sha256sum)
if [ "$(cat $B/.stamp 2>/dev/null)" != "$T $PV_REPO" ]; then
    rm -rf "$B"; mkdir -p "$B/objs"
    ln -s /usr/share/nginx/src/{auto,configure,src} "$B/"
    . /usr/share/nginx/src/conf_flags
    cd "$B"
    ./configure "${NGX_CONF_FLAGS[@]}" --with-cc=gcc --with-cc-opt="$OPT" --with-ld-opt="$LDO" \
        --add-dynamic-module="$PV_SHIM/pingos" \
        --add-dynamic-module="$PV_SHIM/harness" \
        --add-dynamic-module=$PV_REPO/modules/nginx-ts-module >configure.log 2>&1 || { tail -20 configure.log >&2; exit 2; }
    cat > pv.mk <<EOF
pv-default: pv-build
include objs/Makefile
pv-build: objs/$(cat objs/pingos.name).so objs/ngx_http_ts_module.so objs/pv_harness_module.so
-include \$(wildcard objs/*.d objs/*/*.d objs/*/*/*.d objs/*/*/*/*.d)
EOF
    echo "$T $PV_REPO" > .stamp
fi
cd "$B"
make -f pv.mk -j8 pv-build >make.log 2>&1 || { tail -40 make.log >&2; exit 2; }
ln -sf "$(cat objs/pingos.name).so" objs/pingos.so
[ objs/pv_preload.so -nt $V/harness/preload/pv_preload.c ] || gcc -shared -fPIC -O1 -o objs/pv_preload.so $V/harness/preload/pv_preload.c -ldl
echo "$B/objs"
