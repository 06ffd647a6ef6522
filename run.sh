#!/bin/bash
# run.sh ID            run the check of a property (VERIF_TIER, VERIF_SEED)
# run.sh --replay FILE replay a violation
# Environment: REPO (default /repo) is the tree to check.
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" || exit 2
V=$PWD
REPO=${REPO:-/repo}
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
T=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
trap 'exit 2' INT TERM
export TMPDIR=$T
mod=()
if [ "$REPO" != /repo ]; then
    sed "s#=> /repo#=> $REPO#" go.mod > "$T/go.mod"
    mod=(-modfile "$T/go.mod")
fi
b() { go build "${mod[@]}" "$@" || { echo "run.sh: build failed" >&2; exit 2; }; }
b -o "$T/simdrv" ./cmd/simdrv
b -o "$T/instrument" ./cmd/instrument
if [ "$1" = --replay ]; then
    args=(-replay "$(realpath "$2")")
else
    args=(-prop "$1" -tier "$TIER" -seed "$SEED" ${DRVARGS})
fi
bin=$("$T/simdrv" "${args[@]}" -which) || exit 2
mkdir "$T/ov"
case $bin in
simrace)
    "$T/instrument" -repo "$REPO" -out "$T/ov" -verif "$V" -race >/dev/null || exit 2
    b -race -overlay "$T/ov/overlay.json" -o "$T/simrace" ./cmd/simlib ;;
*)
    "$T/instrument" -repo "$REPO" -out "$T/ov" -verif "$V" >/dev/null || exit 2
    b -overlay "$T/ov/overlay.json" -o "$T/$bin" ./cmd/$bin ;;
esac
mkdir "$T/home"
HOME=$T/home XDG_CACHE_HOME=$T/home/.cache XDG_CONFIG_HOME=$T/home/.config "$T/simdrv" -bin "$T" -verif "$V" "${args[@]}"
exit $?
