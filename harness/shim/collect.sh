# Sourced by the nginx "config" shims. Reads the repository's own (static style)
# config files and gathers module lists and sources so that they can be linked
# into one dynamic module.
pv_collect() {
    vp_core= vp_event= vp_http= vp_filter= vp_srcs= vp_deps= vp_incs=
    for vp_dir in "$@"; do
        [ -f "$vp_dir/config" ] || { echo "error: no $vp_dir/config" >&2; exit 1; }
        vp_out=$(cd "$PV_SHIM/none" &&
            CORE_MODULES= EVENT_MODULES= HTTP_MODULES= HTTP_FILTER_MODULES= \
            NGX_ADDON_SRCS= NGX_ADDON_DEPS= CFLAGS= &&
            ngx_addon_dir=$vp_dir && . "$vp_dir/config" >&2 &&
            echo "vp_core=\"\$vp_core $(echo $CORE_MODULES)\"
                  vp_event=\"\$vp_event $(echo $EVENT_MODULES)\"
                  vp_http=\"\$vp_http $(echo $HTTP_MODULES)\"
                  vp_filter=\"\$vp_filter $(echo $HTTP_FILTER_MODULES)\"
                  vp_srcs=\"\$vp_srcs $(echo $NGX_ADDON_SRCS)\"
                  vp_deps=\"\$vp_deps $(echo $NGX_ADDON_DEPS)\"
                  vp_incs=\"\$vp_incs $(echo $CFLAGS)\"") || exit 1
        eval "$vp_out"
    done
}
