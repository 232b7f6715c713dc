#!/bin/bash
# usage: run.sh <property> <quick|thorough>
# Builds the monitors and the programs under test from /repo's working tree
# into a scratch directory, runs the monitor of one property, and cleans up.
set -u
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1}
. "$HERE/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
PIDS=""
cleanup() { chmod -R u+rwX "$W" 2>/dev/null; rm -rf "$W"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
chmod 711 "$W"
export VERIF_BIN=$W/bin VERIF_WORK=$W/work
mkdir -p "$VERIF_BIN" "$VERIF_WORK"
chmod 755 "$VERIF_BIN" "$VERIF_WORK"
export TMPDIR=$W/work
# which programs each property needs, and whether the monitor itself (which
# hosts the library code under test) runs under the race detector
RACE=; BINS=; CLOCK=
eval "$("$HERE/needs.sh" "$PROP")"
build() { # build <dir> <race?> <out> <pkg>
	if [ "$1" = "$VERIF_REPO" ]; then export GOFLAGS="-mod=readonly -buildvcs=false"; fi
	( cd "$1" && go build $OVER $2 -o "$3" "$4" ) 2>&1
}
# programs whose wall clock the monitor sets (see harness/clock.go)
OVER=
if [ -n "$CLOCK" ]; then
	G=$(go env GOROOT)/src/time
	sed 's/^\tsec, nsec, mono := runtimeNow()$/&\n\tsec = verifShift(sec)/' "$G/time.go" > "$W/time.go"
	if ! grep -q verifShift "$W/time.go"; then echo "no clock in this Go version"; exit 2; fi
	printf '{"Replace":{"%s/time.go":"%s/time.go","%s/verif_clock.go":"%s/clock/verif_clock.go"}}' "$G" "$W" "$G" "$HERE" > "$W/overlay.json"
	OVER="-overlay $W/overlay.json"
fi
FAIL=0
MODFILE=
if [ "$VERIF_REPO" != /repo ]; then
	sed -e "s#=> /repo\$#=> $VERIF_REPO#" -e "s#=> \.\./released#=> $HERE/released#" "$HERE/harness/go.mod" > "$W/go.mod"
	cp "$HERE/harness/go.sum" "$W/go.sum"
	MODFILE="-modfile=$W/go.mod"
fi
build "$HERE/harness" "$RACE $MODFILE" "$VERIF_BIN/vh" . > "$W/b0" & P0=$!
I=1
for b in $BINS; do
	case $b in
	rel:*)	# the released version
		n=${b#rel:}
		case $n in zkserver|zkclient) p=./$n ;; *) p=./tools/$n ;; esac
		build "$HERE/released" "" "$VERIF_BIN/rel-$n" "$p" > "$W/b$I" & PIDS="$PIDS $!"
		I=$((I+1)); continue ;;
	*:race) n=${b%:race}; R=-race ;;
	*) n=$b; R= ;;
	esac
	case $n in
	zkserver|zkclient) p=./$n ;;
	*) p=./tools/$n ;;
	esac
	build "$VERIF_REPO" "$R" "$VERIF_BIN/$n" "$p" > "$W/b$I" & PIDS="$PIDS $!"
	I=$((I+1))
done
for p in $P0 $PIDS; do wait $p || FAIL=1; done
if [ $FAIL != 0 ]; then cat "$W"/b[0-9]*; echo "build failed"; exit 2; fi
export GORACE="halt_on_error=0 exitcode=0 log_path=$W/race history_size=2"
export VERIF_RACELOG=$W/race
export GOTRACEBACK=all
"$VERIF_BIN/vh" -super -prop "$PROP" -tier "$TIER" -verif "$HERE"
exit $?
